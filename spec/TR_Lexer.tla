----------------------------- MODULE TR_Lexer ------------------------------
(* Recorded scans against the scanning machine.                             *)
(* C09 (want "pos"): pieces as delivered, but contiguous, exactly located,  *)
(* numbered and ended.  C10 (want "class"): the winning token itself.       *)
(* C11 (want "full"): both.                                                 *)
EXTENDS Lexer, Patterns, TraceKit
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
VARIABLES c, k, done
Want == IOEnv.TR_WANT
Case(i) == Trace[i].case
Obs(i) == Trace[i].obs
Scans(i) == Obs(i).v.scans
PatsOf(i) == IF Case(i).who = "v1" THEN V1Pats ELSE IF Case(i).who = "boot" THEN BootPats ELSE Case(i).pats
NamesOf(i) == IF Case(i).who = "v1" THEN V1Names ELSE IF Case(i).who = "boot" THEN BootNames ELSE Case(i).names
SkipOf(i) == IF Case(i).who = "v1" THEN V1Skip ELSE IF Case(i).who = "boot" THEN BootSkip ELSE {Case(i).skip[j] : j \in 1..Len(Case(i).skip)}
Proj(t) == [ty |-> t.ty, tx |-> t.tx, sl |-> t.sl, sc |-> t.sc, el |-> t.el, ec |-> t.ec, ti |-> t.ti, cs |-> t.cs, ce |-> t.ce]
Labelled(t) == t.chn = 0 /\ t.nm = (IF t.ty = 1 THEN "_STOP" ELSE NamesOf(c)[t.ty - 1])

Ran == Obs(c).r = "ok"
More == Ran /\ k <= Len(Scans(c))
S_ == Scans(c)[k]
Accept ==
  /\ More
  /\ \/ S_.r = "err" /\ ScanErr
     \/ /\ S_.r = "ok"
        /\ CASE Want = "class" ->
                  \/ AtEnd /\ S_.t.ty = 1 /\ Labelled(S_.t) /\ Stop
                  \/ ~AtEnd /\ LET b == NextWin IN /\ b[1] # 0 /\ S_.t.ty = b[1] + 1 /\ S_.t.tx = SubSeq(text, pos + 1, b[2])
                                                 /\ Labelled(S_.t) /\ Move(b[2])
             [] Want = "pos" ->
                  \/ AtEnd /\ ScanStop(Proj(S_.t))
                  \/ /\ ~AtEnd /\ Len(S_.t.tx) > 0 /\ pos + Len(S_.t.tx) <= Len(text)
                     /\ Take(S_.t.ty - 1, pos + Len(S_.t.tx), Proj(S_.t))
             [] OTHER -> \* both
                  \/ AtEnd /\ ScanStop(Proj(S_.t)) /\ Labelled(S_.t)
                  \/ ~AtEnd /\ ScanTok(Proj(S_.t)) /\ Labelled(S_.t)
  /\ k' = k + 1 /\ UNCHANGED <<c, done>>
\* the scans before the first refusal
Oks(q) == LET bad == {i \in 1..Len(q) : q[i].r # "ok"} IN IF bad = {} THEN Len(q) ELSE Min(bad) - 1
\* toks are exactly the tokens of these scans outside the set skip, in order
Kept(toks, q, k0, m, skip) ==
  LET idx == SetToSortSeq({i \in k0..m : q[i].t.ty \notin skip}, <)
  IN Len(toks) = Len(idx) /\ \A i \in 1..Len(toks) : toks[i] = q[idx[i]].t
\* what scanning a whole text says: the unscanned rest, or nothing
Blank(q) == \A i \in 1..Len(q) : q[i] \in {9, 10, 12, 13, 32}
Holds(q, r) == q = r \o <<LF>> \/ \E i \in 0..(Len(q) - Len(r)) : SubSeq(q, i + 1, i + Len(r)) = r
SaysBad(a) == Want # "class" /\ a.r = "ok" /\ ~(IF AtEnd THEN Blank(a.rep) ELSE Holds(a.rep, SubSeq(text, pos + 1, Len(text))))
AllBad ==
  LET q == Scans(c)  m == Oks(q)
      a0 == Obs(c).v.all0  a1 == Obs(c).v.all1
      h == Obs(c).v.mid
  IN Why(<< <<a0.r = "ok" /\ a1.r = "ok" /\ h.r = "ok", "scanning the whole text panics">>,
            <<Want # "pos" \/ \A i \in 1..Len(a0.toks) : \E j \in 1..m : q[j].t = a0.toks[i], "scan-all returns a token no single scan returns">>,
            <<Want = "pos" \/ Kept(a0.toks, q, 1, m, SkipOf(c)), "scan-all differs from the single scans without the skipped tokens">>,
            <<Want = "pos" \/ Kept(h.toks, q, h.from + 1, m, SkipOf(c)), "scanning the rest of a text differs from the single scans">>,
            <<Want = "class" \/ ~h.more, "a token after the whole text was scanned">>,
            <<~SaysBad(a0) /\ ~SaysBad(a1), "scan-all does not print the unscanned rest, or prints something else">>,
            <<Want = "pos" \/ a1.toks = <<>>, "tokens on a channel no token is on">> >>)
\* a generated lexer exposes every token's name with its number
ExposedBad ==
  IF Case(c).who # "gen" THEN ""
  ELSE LET ns == NamesOf(c)  v == Obs(c).v
       IN Why(<< <<v.consts = [i \in 1..Len(ns) |-> <<ns[i], i + 1>>], "a token constant has a wrong number">>,
                 <<v.names = <<"_START", "_STOP">> \o ns, "the token names differ from the declared ones">> >>)
\* the driver scans until three refusals in a row, so a run that ends otherwise never stops
Ends3 == LET q == Scans(c) IN Len(q) >= 3 /\ \A i \in 0..2 : q[Len(q) - i].r = "err"
Complaint ==
  LET b == IF AtEnd THEN <<0, pos>> ELSE NextWin
      want == IF AtEnd THEN IF Refuses THEN "nothing" ELSE "the end marker" ELSE IF b[1] = 0 THEN "nothing" ELSE NamesOf(c)[b[1]]
  IN "scan " \o ToString(k) \o " at character " \o ToString(pos) \o " gave " \o
     (IF S_.r # "ok" THEN S_.r ELSE ToString(S_.t)) \o " where the specification has " \o want \o " up to " \o ToString(b[2])
Reject == ~done /\ More /\ ~ENABLED Accept /\ done' = Verdict(c, Complaint) /\ UNCHANGED <<lvars, c, k>>
Finish == /\ ~done /\ ~More
          /\ done' = Verdict(c, IF ~Ran THEN "scanning ended with " \o Obs(c).r
                                ELSE IF ~Ends3 THEN "scanning does not stop"
                                ELSE IF ExposedBad # "" THEN ExposedBad
                                ELSE AllBad)
          /\ UNCHANGED <<lvars, c, k>>
TrInit == /\ c \in 1..Len(Trace) /\ k = 1 /\ done = FALSE
          /\ LexInit(Case(c).input, PatsOf(c), Case(c).who # "boot")
TrSpec == TrInit /\ [][(~done /\ Accept) \/ Reject \/ Finish]_<<lvars, c, k, done>>
=============================================================================
