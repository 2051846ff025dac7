------------------------------- MODULE MC_Boot -------------------------------
(* Small grammars are written down in every layout and read back: the        *)
(* machine must return exactly the tree of what was written.                 *)
EXTENDS Boot, SequencesExt, Json, IOUtils
CONSTANT Big
VARIABLES src
\* words
Aa == <<97, 97>>  Bb == <<66, 98>>  Str == <<39, 59, 39>>  Rex == <<47, 124, 92, 47, 47>>
Colons == {<<58>>, <<58, 58, 61>>, <<45, 62>>} \cup (IF Big THEN {<<58, 61>>, <<61, 62>>, <<61>>} ELSE {})
Eps == <<949>>
\* sources: rules as structured records; each piece is <<token type, text>>
P1(t, x) == [t |-> t, x |-> x]
Nd(i, ch) == [k |-> "R", ix |-> i, ch |-> ch]
Lf(p) == [k |-> "T", t |-> [ty |-> p.t, tx |-> p.x]]
Ty(nm) == TokId(Language, nm)
RECURSIVE YieldP(_), YieldPs(_, _)
YieldP(t) == IF t.k = "T" THEN <<t.t.tx>> ELSE YieldPs(t.ch, 1)
YieldPs(ch, i) == IF i > Len(ch) THEN <<>> ELSE YieldP(ch[i]) \o YieldPs(ch, i + 1)
Lit1(nm, x) == Lf(P1(Ty(nm), x))
Suff == {<<>>, <<Nd(6, <<Lit1("STAR", <<42>>)>>)>>, <<Nd(6, <<Lit1("PLUS", <<43>>), Lit1("QUESTION", <<63>>)>>)>>, <<Nd(6, <<Lit1("QUESTION", <<63>>)>>)>>}
Atoms == {<<Lit1("RULE_REF", Aa)>>, <<Lit1("TOKEN_REF", Bb)>>, <<Lit1("STRING_LITERAL", Str)>>}
Els0 == {Nd(5, a \o s) : a \in Atoms, s \in Suff}
Alt1(es) == {Nd(3, <<e>>) : e \in es}
EpsAlt == Nd(3, <<Nd(4, <<Lit1("EPSILON", Eps)>>)>>)
Or1 == Lit1("OR", <<124>>)
Blk(alts) == {Nd(2, <<a>>) : a \in alts} \cup {Nd(2, <<a, Or1, b>>) : a \in alts, b \in {EpsAlt, Nd(3, <<Nd(5, <<Lit1("TOKEN_REF", Bb)>>)>>)}}
In1 == Blk(Alt1({Nd(5, a) : a \in Atoms}) \cup {EpsAlt})
Els1 == {Nd(5, <<Lit1("LPAREN", <<40>>), b, Lit1("RPAREN", <<41>>)>> \o s) : b \in In1, s \in IF Big THEN Suff ELSE {<<>>, <<Nd(6, <<Lit1("STAR", <<42>>)>>)>>}}
Alts == Alt1(Els0 \cup Els1) \cup {EpsAlt} \cup {Nd(3, <<a, b>>) : a \in {Nd(5, <<Lit1("RULE_REF", Aa)>>), Nd(5, <<Lit1("TOKEN_REF", Bb)>> \o <<Nd(6, <<Lit1("QUESTION", <<63>>)>>)>>)}, b \in Els0}
PRule(col, b) == Nd(1, <<Lit1("RULE_REF", Aa), Lit1("COLON", col), b, Lit1("SEMI", <<59>>)>>)
LRule(col) == Nd(7, <<Lit1("TOKEN_REF", Bb), Lit1("COLON", col), Nd(8, <<Lit1("REGULAR_LITERAL", Rex)>>), Lit1("SEMI", <<59>>)>>)
Blks == Blk(Alts)
SmallB == {Nd(2, <<EpsAlt>>), Nd(2, <<Nd(3, <<Nd(5, <<Lit1("RULE_REF", Aa)>>)>>)>>)}
Trees == {Nd(0, <<PRule(<<58>>, b)>>) : b \in Blks} \cup {Nd(0, <<>>)}
         \cup {Nd(0, <<r, q>>) : r \in {LRule(d) : d \in Colons} \cup {PRule(d, b) : d \in Colons, b \in SmallB}, q \in {LRule(<<58>>)} \cup {PRule(<<61>>, b) : b \in SmallB}}
\* layouts
WordCh(ch) == (ch >= 48 /\ ch <= 57) \/ (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122) \/ ch = 95
Gap(l, a, b) == CASE l = "tight" -> IF WordCh(a[Len(a)]) /\ WordCh(b[1]) THEN <<32>> ELSE <<>>
                  [] l = "wide" -> <<32>> [] l = "lines" -> <<13, 10, 9>> [] OTHER -> <<10, 32, 12>>
RECURSIVE Lay(_, _, _)
Lay(l, q, i) == IF i > Len(q) THEN <<>> ELSE (IF i = 1 THEN (IF l = "tight" THEN <<>> ELSE <<10>>) ELSE Gap(l, q[i - 1], q[i])) \o q[i] \o Lay(l, q, i + 1)
Written(t, l) == Lay(l, YieldP(t), 1) \o (IF l = "lines" THEN <<32>> ELSE <<>>)
Layouts == {"tight", "lines"} \cup (IF Big THEN {"wide", "feeds"} ELSE {})
MCInit == \E T \in {LTab}, un \in {LHelpers} : \E t \in Trees, l \in Layouts : src = t /\ BootInit(Written(t, l), T, un)
MCSpec == MCInit /\ [][BootNext /\ UNCHANGED src]_<<bvars, src>> /\ WF_<<bvars, src>>(BootNext /\ UNCHANGED src)
ReadBack == Over => ReadOk /\ res = <<src>>
Ends_ == <>Over
ASSUME LanguageOK
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({Written(t, l) : t \in Trees, l \in Layouts}))
=============================================================================
