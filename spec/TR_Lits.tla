------------------------------- MODULE TR_Lits ------------------------------
(* C21: the records made for a grammar's string literals.                    *)
EXTENDS Literals, TraceKit
VARIABLES c, done
O(k) == Trace[k].obs
LOCAL INSTANCE SequencesExt
\* what a literal's pattern must match on each probe (computed once: folds are not lazy)
Vec(raw, probes) == LET d == Denote(raw) IN FoldLeft(LAMBDA acc, p : Append(acc, DMatch(d, p)), <<>>, probes)
Vecs(lits, probes) == FoldLeft(LAMBDA acc, l : Append(acc, Vec(l, probes)), <<>>, lits)
\* records against literals: exactly one record per literal, matching exactly its text
RecsBad(recs, next, lits, vecs) ==
  LET n == Len(lits)
  IN IF Len(recs) # n THEN "not one record per distinct literal"
     ELSE Why(<< <<next = 2 + n /\ \A i \in 1..n : recs[i].ty = 1 + i, "the numbers are not consecutive">>,
                 <<Cardinality({recs[i].nm : i \in 1..n}) = n, "two literals share a name">>,
                 <<\A i \in 1..n : recs[i].valid, "a record's pattern is not valid">>,
                 <<\A j \in 1..n : Cardinality({i \in 1..n : recs[i].m = vecs[j]}) = Cardinality({i \in 1..n : vecs[i] = vecs[j]}), "a literal's pattern does not match exactly its text">> >>)
TokBad(v, lits, vecs) ==
  IF \A j \in 1..Len(lits) : \E x \in 1..Len(v.ts) : /\ v.ts[x].nm = lits[j]
                                                     /\ \A i \in 1..Len(v.recs) : v.recs[i].ty = v.ts[x].id => v.recs[i].m = vecs[j]
  THEN "" ELSE "a literal's token is not the one of its record"
Judged ==
  IF O(c).r # "ok" THEN "collecting ended with " \o O(c).r
  ELSE LET v == O(c).v
           k == Trace[c].case
           lits == GrammarLits(k.rules)
           vecs == Vecs(lits, k.probes)
           bad1 == IF v.coll.res # "ok" THEN "the collector failed" ELSE RecsBad(v.coll.recs, v.coll.next, lits, vecs)
           bad2 == IF v.pass.res # "ok" THEN "the literal pass failed" ELSE RecsBad(v.pass.recs, v.pass.next, lits, vecs)
       IN IF bad1 # "" THEN bad1 \o " (stand-alone collector)"
          ELSE IF bad2 # "" THEN bad2
          ELSE IF TokBad(v.pass, lits, vecs) # "" THEN TokBad(v.pass, lits, vecs)
          ELSE IF v.full.res # "ok" THEN "building a grammar with literals failed" ELSE ""
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
