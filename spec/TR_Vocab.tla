------------------------------ MODULE TR_Vocab ------------------------------
(* A recorded history is stepped through Vocabulary's actions; after every  *)
(* operation the return value and the full snapshot of all lookups must be  *)
(* those of the specification's state.                                      *)
EXTENDS Vocabulary, TraceKit
VARIABLES c, l, done
Rng(q) == {q[i] : i \in 1..Len(q)}
Steps == Trace[c].obs.v.steps
SnapBad(s) == Why(<<
  <<\A x \in Rng(s.tid) : x.has = (x.id \in Ids(T)) /\ x.nm = NameOf(T, x.id) /\ x.nmx = NameOf(T, x.id), "terminal lookup by id">>,
  <<\A x \in Rng(s.nid) : x.has = (x.id \in NtIds) /\ x.nm = NameOf(M, x.id), "nonterminal lookup by id">>,
  <<\A x \in Rng(s.nid) : x.def = (IF x.id \in Ids(M) THEN NameOf(M, x.id)[1] ELSE x.id), "nonterminal display name">>,
  <<\A x \in Rng(s.nm) : x.t = IdOf(T, x.nm) /\ x.td = (x.nm \in Names(T)), "terminal lookup by name">>,
  <<\A x \in Rng(s.nm) : x.n = IdOf(M, x.nm) /\ x.nd = (x.nm \in Names(M)), "nonterminal lookup by name">>,
  <<Rng(s.allt) = Ids(T) /\ Len(s.allt) = Cardinality(T), "listing of terminals">>,
  <<Rng(s.alln) = NtIds /\ Len(s.alln) = Cardinality(NtIds), "listing of nonterminals">> >>)
TrInit == c \in 1..Len(Trace) /\ l = 0 /\ done = FALSE /\ VInit
Step == /\ ~done /\ l < Len(Trace[c].case.ops)
        /\ LET o == Trace[c].case.ops[l + 1]
               r == Steps[l + 2].ret
           IN CASE o.op = "t" -> AddT(o.id, o.nm, r) [] o.op = "n" -> AddM(o.id, o.nm, r) [] OTHER -> AddU(o.id, r)
        /\ l' = l + 1 /\ c' = c /\ UNCHANGED done
SnapOK == SnapBad(Steps[l + 1].snap)
\* the machine is deterministic: stuck or differing = not a behaviour
Judged == IF Trace[c].obs.r # "ok" THEN "the history ended with " \o Trace[c].obs.r
          ELSE IF Len(Steps) # Len(Trace[c].case.ops) + 1 THEN "history incomplete"
          ELSE IF SnapOK # "" THEN SnapOK
          ELSE IF l = Len(Trace[c].case.ops) THEN "end"
          ELSE IF ~ENABLED Step THEN "wrong return value of a registration"
          ELSE "go"
Advance == ~done /\ Judged = "go" /\ Step
Finish == /\ ~done /\ Judged # "go"
          /\ done' = Verdict(c, IF Judged = "end" THEN "" ELSE Judged)
          /\ UNCHANGED <<vvars, c, l>>
TrSpec == TrInit /\ [][Advance \/ Finish]_<<vvars, c, l, done>>
=============================================================================
