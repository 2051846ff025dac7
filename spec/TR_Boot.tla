------------------------------- MODULE TR_Boot ------------------------------
(* C20: recorded readings of texts (want "text"), and the tool chain run on  *)
(* the shipped description against the constants of the front end ("const"). *)
EXTENDS Boot, TraceKit, TraceTree
VARIABLES c, done, steps
\* a recorded reading is one path: the trace number and the step number identify the state
PathView == <<c, steps, done>>
Want == IOEnv.TR_WANT
O(k) == Trace[k].obs
\* the specification's tree as a preorder list, like the recorded one
RECURSIVE FlatOf(_), FlatSeq(_, _)
FlatOf(t) == IF t.k = "T" THEN << [k |-> "T", ty |-> t.t.ty, nm |-> IF t.t.ty = 1 THEN "_STOP" ELSE V1Names[t.t.ty - 1], tx |-> t.t.tx] >>
             ELSE << [k |-> "R", ix |-> t.ix, nm |-> LNames[t.ix + 1], n |-> Len(t.ch)] >> \o FlatSeq(t.ch, 1)
FlatSeq(ch, i) == IF i > Len(ch) THEN <<>> ELSE FlatOf(ch[i]) \o FlatSeq(ch, i + 1)
TextBad ==
  LET v == O(c).v
  IN IF O(c).r # "ok" THEN "reading the text ended with " \o O(c).r
     ELSE IF ReadOk
     THEN IF ~PrintT(<<"READ", c>>) THEN ""
          ELSE IF v.res # "ok" THEN "a grammar text is refused (" \o v.at \o ")"
          ELSE IF v.rep THEN "a grammar text is reported"
          ELSE IF v.tree # FlatOf(res[1]) THEN "the tree is not the tree of the text" ELSE ""
     ELSE IF v.res = "ok" /\ ~v.rep THEN "a text outside the grammar language is read without complaint" ELSE ""
ConstBad ==
  LET v == O(c).v
      cs == Trace[c].case
      Ts == {<<i + 1, V1Names[i]>> : i \in 1..Len(V1Names)} \cup {<<0, "_START">>, <<1, "_STOP">>}
      Ns == {<<i - 1, LNames[i]>> : i \in 1..Len(LNames)}
      named == {x \in Range(v.nts) : x.nm # ""}
      Rec(i) == {x \in Range(v.data) : x.ty = i + 1}
      Matches(m, i, t) == LET e == MatchEnd(V1Pats[i], t, 0) IN m = (IF e = 0 THEN <<>> ELSE <<0, e>>)
  IN Why(<< <<~v.rep, "the tool chain reports something about the shipped description">>,
            <<~v.trep, "the shipped description is not LL(1)">>,
            <<{<<x.id, x.nm>> : x \in Range(v.ts)} = Ts, "the shipped description's tokens are numbered differently">>,
            <<{<<x.id, x.nm>> : x \in named} = Ns, "the shipped description's rules are numbered differently">>,
            <<{<<v.tconst[i][2], v.tconst[i][1]>> : i \in 1..Len(v.tconst)} = Ts, "a token constant of the bootstrapped lexer differs">>,
            <<{<<v.nconst[i][2], v.nconst[i][1]>> : i \in 1..Len(v.nconst)} = Ns, "a rule constant of the bootstrapped parser differs">>,
            <<\A i \in 1..Len(V1Names) : Cardinality(Rec(i)) = 1 /\ \A x \in Rec(i) : x.nm = V1Names[i] /\ x.valid, "lexical records of the shipped description">>,
            <<\A i \in 1..Len(V1Names) : \A x \in Rec(i) : \A j \in 1..Len(cs.probes) : Matches(x.m[j], i, cs.probes[j]),
              "a pattern of the shipped description differs from the bootstrapped lexer's">> >>)
TrInit == \E T \in {LTab}, un \in {LHelpers} :
             /\ c \in 1..Len(Trace) /\ done = FALSE /\ steps = 0
             /\ BootInit(IF Want = "text" THEN Trace[c].case.text ELSE <<>>, T, un)
Step == ~done /\ Want = "text" /\ BootNext /\ UNCHANGED <<c, done>> /\ steps' = steps + 1
Finish == /\ ~done /\ (Over \/ Want # "text") /\ done' = Verdict(c, IF Want = "text" THEN TextBad ELSE IF O(c).r # "ok" THEN "the tool chain fails on the shipped description" ELSE ConstBad)
          /\ UNCHANGED <<bvars, c, steps>>
TrSpec == TrInit /\ [][Step \/ Finish]_<<bvars, c, done, steps>>
=============================================================================
