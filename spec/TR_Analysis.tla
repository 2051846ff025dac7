--------------------------- MODULE TR_Analysis ---------------------------
(* Every recorded run of the analysis must end where the specification's    *)
(* machine ends (Analysis.tla: FirstExact, FollowExact, TableOK hold for    *)
(* every order, so the end state is a function of the grammar).             *)
EXTENDS CFG, TraceKit
VARIABLES c, done
Want == IOEnv.TR_WANT     \* "first" | "follow" | "table"

GramP(k) == Range(Trace[k].case.prods)
GramN(k) == {x.id : x \in Range(Trace[k].case.nts)}

SetOf(q) == Range(q)
Fn(q, key(_), val(_)) == {<<key(q[i]), val(q[i])>> : i \in 1..Len(q)}

FirstBad(run, P, N, nul, F) ==
  LET got == Fn(run.first, LAMBDA x : x.a, LAMBDA x : <<x.e, SetOf(x.s)>>)
      gotp == Fn(run.pfirst, LAMBDA x : x.p, LAMBDA x : <<x.e, SetOf(x.s)>>)
  IN Why(<< <<got = {<<A, <<A \in nul, F[A]>>>> : A \in N}, "FIRST of a nonterminal differs">>,
            <<gotp = {<<p, <<SeqNull(p.r, nul), SeqFirst(p.r, nul, F)>>>> : p \in P}, "FIRST of a production differs">>,
            <<Len(run.first) = Cardinality(N) /\ Len(run.pfirst) = Cardinality(P), "FIRST has extra entries">> >>)
FollowBad(run, N, W) ==
  LET got == Fn(run.follow, LAMBDA x : x.a, LAMBDA x : SetOf(x.s))
  IN Why(<< <<got = {<<A, W[A]>> : A \in N}, "FOLLOW differs">> >>)
TableBad(run, P, nul, F, W) ==
  LET C == Cands(P, nul, F, W)
      T == {<<x.a, x.t, x.p>> : x \in Range(run.table)}
      ll1 == LL1F(C)
  IN Why(<< <<T \subseteq C, "a table cell holds a production that is not its candidate">>,
            <<{<<x[1], x[2]>> : x \in C} = {<<x[1], x[2]>> : x \in T}, "a cell with candidates is missing">>,
            <<Cardinality(T) = Cardinality({<<x[1], x[2]>> : x \in T}), "two entries in one cell">>,
            <<ll1 => ~run.rep, "conflict reported for an LL(1) grammar">>,
            <<~ll1 => run.rep, "conflict not reported">> >>)
RunBad(run, P, N) ==
  IF run.res # "ok" THEN "the analysis panicked"
  ELSE LET nul == Nullable(P)
           F == First(P, N)
       IN CASE Want = "first" -> FirstBad(run, P, N, nul, F)
            [] Want = "follow" -> FollowBad(run, N, FollowOf(P, N, nul, F))
            [] OTHER -> TableBad(run, P, nul, F, FollowOf(P, N, nul, F))
RECURSIVE FirstNonEmpty(_)
FirstNonEmpty(q) == IF q = <<>> THEN "" ELSE IF Head(q) # "" THEN Head(q) ELSE FirstNonEmpty(Tail(q))
Judge(k) ==
  LET o == Trace[k].obs
  IN IF o.r # "ok" THEN "the analysis ended with " \o o.r
     ELSE LET P == GramP(k)  N == GramN(k)
          IN FirstNonEmpty([i \in 1..Len(o.v.runs) |-> RunBad(o.v.runs[i], P, N)])

TrInit == c \in 1..Len(Trace) /\ done = FALSE
TrNext == ~done /\ done' = Verdict(c, Judge(c)) /\ c' = c
TrSpec == TrInit /\ [][TrNext]_<<c, done>>
=============================================================================
