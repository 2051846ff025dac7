------------------------------- MODULE MC_Page -------------------------------
(* Every short string over the critical characters is written into a page    *)
(* and the page is read back.                                                *)
EXTENDS Page, TLC, Json, SequencesExt, IOUtils
CONSTANTS Level, N
VARIABLES str, page, pos, h, ttl
Alpha == {Bt, Bs, Dl, Lb, Lt, Sl, Ex, Da, Gt, Cr, Lf, Scr, 97}
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
\* longer ones that reach the deep tokenizer states
Deep == {<<Lt, Ex, Da, Da>> \o x \o <<Lt, Scr, Gt>> \o y : x \in Strs(1), y \in Strs(1)}
        \cup {<<Lt, Sl, Scr, x>> \o y : x \in {Gt, Lf, Cr, Sl}, y \in Strs(1)} \cup {<<Dl, Lb, 97, 125>> \o y : y \in Strs(1)}
Cases == Strs(N) \cup Deep
\* the page from the opening quote; the script's own end follows
PageOf(s) == Newlines(<<Bt>> \o Encode(Level, s, 1) \o <<Bt, Lt, Sl, Scr, Gt>>, 1)
\* titles: a second, smaller family of strings
TAlpha == {And, Semi, Lt, Sl, Gt, Cr, 32, 97, Ttl, AmpW, LtW}
TStrs(n) == UNION {[1..k -> TAlpha] : k \in 0..n} \cup {<<Lt, Sl, Ttl, x>> \o y : x \in {Gt, Cr, Sl}, y \in UNION {[1..k -> TAlpha] : k \in 0..1}}
TPage(s) == Newlines(TEncode(Level, s, 1) \o <<Lt, Sl, Ttl, Gt>>, 1)
MCInit == \/ str \in Cases /\ ttl = FALSE /\ page = PageOf(str) /\ pos = 1 /\ h = "plain"
          \/ str \in TStrs(N) /\ ttl = TRUE /\ page = TPage(str) /\ pos = 1 /\ h = "end"
vars == <<str, page, pos, h, ttl>>
Step == h # "end" /\ pos <= Len(page) /\ LET t == TokStep(page, pos, h) IN h' = t.h /\ pos' = pos + t.n /\ UNCHANGED <<str, page, ttl>>
MCSpec == MCInit /\ [][Step]_vars /\ WF_vars(Step)
\* the title shown is the title given, and the element ends where the template ends it
TitleBack == ttl => LET r == TRead(page, 1, <<>>) IN r.i = Len(page) - 3 /\ TShow(r.v, 1, <<>>) = TShow(str, 1, <<>>)
\* the script ends where the template ends it, and nowhere else
EndsAtEnd == ~ttl =>
             /\ h = "end" => pos = Len(page) - 3
             /\ pos > Len(page) => h = "end"
\* the string read is the string written; no content is code
ReadBack == ~ttl /\ pos = 1 => LET r == Literal(page, 2, <<>>) IN r.ok /\ ~r.code /\ r.v = str /\ r.i = Len(page) - 3
Ends == <>(h = "end")
ASSUME IOEnv.MC_OUT = "" \/ (ndJsonSerialize(IOEnv.MC_OUT, SetToSeq(Cases)) /\ ndJsonSerialize(IOEnv.MC_OUT \o ".t", SetToSeq(TStrs(N))))
=============================================================================
