----------------------------- MODULE TR_Parser -----------------------------
(* C07 (want "complete"): the machine parses the recorded input; when it    *)
(* accepts silently up to the last token, the code must have returned that  *)
(* very tree.  C08 (want "sound"): a silently returned tree must be a parse *)
(* tree of an unmodified prefix.                                            *)
EXTENDS LL1Parser, TraceKit, TraceTree
VARIABLES c, done
Want == IOEnv.TR_WANT
Case(k) == Trace[k].case
Prs(k) == Range(Case(k).prods)
Nts(k) == {x.id : x \in Range(Case(k).nts)}
Unn(k) == {x.id : x \in {y \in Range(Case(k).nts) : y.nm = ""}}
NmOf(k, i) == (CHOOSE x \in Range(Case(k).nts) : x.id = i).nm
Tb(k) == [x \in {<<e.a, e.t>> : e \in Range(Case(k).table)} |->
            (CHOOSE e \in Range(Case(k).table) : <<e.a, e.t>> = x).p]
\* the driver handed the code the right table for an LL(1) grammar
TableOk(k) == LET P == Prs(k)  N == Nts(k)  nul == Nullable(P)  F == First(P, N)
                  C == Cands(P, nul, F, FollowOf(P, N, nul, F))
              IN LL1F(C) /\ C = {<<e.a, e.t, e.p>> : e \in Range(Case(k).table)}
Inp(k) == Case(k).inputs[1]
Obs(k) == Trace[k].obs
Out(k) == Obs(k).v.outs[1]
SilentO(k) == Obs(k).r = "ok" /\ Out(k).res = "ok" /\ ~Out(k).rep

RECURSIVE Same(_, _, _)
Same(s, o, k) ==
  /\ s.k = o.k
  /\ IF s.k = "R" THEN /\ s.ix = o.ix /\ o.nm = NmOf(k, s.ix) /\ Len(s.ch) = Len(o.ch)
                       /\ \A i \in 1..Len(s.ch) : Same(s.ch[i], o.ch[i], k)
     ELSE s.t = o.t
RECURSIVE NamesOk(_, _)
NamesOk(o, k) == o.k = "R" => /\ o.ix \in Nts(k) /\ o.nm = NmOf(k, o.ix)
                              /\ \A i \in 1..Len(o.ch) : NamesOk(o.ch[i], k)

SoundBad(k) ==
  IF ~SilentO(k) THEN ""
  ELSE LET t == Unflat(Out(k).tree)
           PL == ByLeft(Prs(k), Nts(k))
       IN Why(<< <<t.k = "R" /\ t.ix = Inp(k).entry, "the root is not the entry rule">>,
                 <<NamesOk(t, k), "a node has a wrong number or name">>,
                 <<IsPrefixOf(Yield(t), Inp(k).toks), "the leaves are not a prefix of the input">>,
                 <<IsTree(t, PL, Unn(k)), "silently accepted, but not a parse tree">> >>)

TrInit == /\ c \in 1..Len(Trace) /\ done = FALSE
          /\ IF Want = "complete" THEN ParseInit(Inp(c).toks, Tb(c), Unn(c), Inp(c).entry)
             ELSE ParseInit(<<>>, <<>>, {}, 0)
Step == ~done /\ st = "run" /\ PNext /\ UNCHANGED <<c, done>>
Judged ==
  IF ~TableOk(c) THEN "driver: table"
  ELSE IF Obs(c).r = "hang" THEN "parsing does not terminate"
  ELSE IF Obs(c).r = "ok" /\ ~Out(c).again THEN "the same parser, asked again, answers differently"
  ELSE IF Want = "sound" THEN IF Obs(c).r # "ok" THEN "" ELSE SoundBad(c)
  ELSE IF st = "ok" /\ ~rep /\ cur = Len(toks) - 1
  THEN (IF PrintT(<<"SENT", c>>) THEN
        IF Obs(c).r # "ok" THEN "parsing a sentence ended with " \o Obs(c).r
        ELSE IF Out(c).res # "ok" THEN "a sentence was refused"
        ELSE IF Out(c).rep THEN "a sentence was reported"
        ELSE IF ~Same(res[1], Unflat(Out(c).tree), c) THEN "the tree differs from the parse tree of the sentence"
        ELSE "" ELSE "")
  ELSE ""
Finish == /\ ~done /\ st # "run" /\ done' = Verdict(c, Judged) /\ UNCHANGED <<pvars, c>>
TrSpec == TrInit /\ [][Step \/ Finish]_<<pvars, c, done>>
=============================================================================
