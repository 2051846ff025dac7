------------------------------ MODULE MC_Trees ------------------------------
(* Every tree up to MaxN nodes: the walk, the visit with a family of         *)
(* visitors, and the laws of the queries.                                    *)
EXTENDS Traverse, TreeQuery, TLC, Json, SequencesExt, IOUtils
CONSTANTS MaxN, Job, ExportN      \* Job: "walk" | "visit" | "query"
VARIABLES q, v, s
Ixs == {0, 3, 77}
Tok(t) == [ty |-> ToString(t)]
NodesOf(m) == {[k |-> "R", ix |-> x, n |-> n] : x \in Ixs, n \in 0..m} \cup {[k |-> "T", t |-> Tok(5)], [k |-> "T", t |-> Tok(0)], [k |-> "E", t |-> Tok(5)]}
Arity(x) == IF x.k = "R" THEN x.n ELSE 0
RECURSIVE Gen(_, _)
Gen(m, need) == IF need = 0 THEN (IF m = 0 THEN {<<>>} ELSE {})
                ELSE IF m < need THEN {}
                ELSE UNION {{<<x>> \o r : r \in Gen(m - 1, need - 1 + Arity(x))} : x \in NodesOf(m - 1)}
TreesOf(N) == {t \in UNION {Gen(m, 1) : m \in 1..N} : t[1].k = "R"}
Vis(h, l, f, p, st, sn) == [h |-> h, l |-> l, fold |-> f, prune |-> p, stop |-> st, stopn |-> sn]
Visitors == {Vis(FALSE, FALSE, FALSE, {}, {}, {}), Vis(FALSE, TRUE, FALSE, {}, {}, {})}
            \cup {Vis(TRUE, TRUE, FALSE, p, {}, {}) : p \in {{}, {3}}}
            \cup {Vis(h, TRUE, TRUE, p, st, sn) : h \in BOOLEAN, p \in {{}, {3}}, st \in {{}, {3}}, sn \in {{}, {1}, {-1}}}
MCInit == /\ q \in TreesOf(MaxN)
          /\ IF Job = "visit" THEN v \in Visitors /\ s = VInit(1, "")
             ELSE v = Vis(FALSE, FALSE, FALSE, {}, {}, {}) /\ s = WInit(q, 1)
Go == /\ UNCHANGED <<q, v>>
      /\ IF Job = "visit" THEN ~VDone(s) /\ s' = VStep(q, v, s)
         ELSE IF Job = "walk" THEN ~WDone(s) /\ s' = WStep(q, s)
         ELSE FALSE
MCSpec == MCInit /\ [][Go]_<<q, v, s>> /\ WF_<<q, v, s>>(Go)
At(l, e) == {k \in 1..Len(l) : l[k] = e}
Idx(l, e) == CHOOSE k \in 1..Len(l) : l[k] = e
\* C12 on the design
WalkOk == Job = "walk" /\ WDone(s) =>
  LET l == s.log
      evs(i) == IF q[i].k = "R" THEN {"enter_every", "exit_every"} \cup (IF Known(q, i) THEN {"enter_" \o NameOf(q, i), "exit_" \o NameOf(q, i)} ELSE {})
                ELSE IF q[i].k = "T" THEN {"enter_terminal", "exit_terminal"} ELSE {"enter_errornode", "exit_errornode"}
      en(i) == IF q[i].k = "R" THEN "enter_every" ELSE IF q[i].k = "T" THEN "enter_terminal" ELSE "enter_errornode"
      ex(i) == IF q[i].k = "R" THEN "exit_every" ELSE IF q[i].k = "T" THEN "exit_terminal" ELSE "exit_errornode"
  IN /\ \A i \in Nodes(q) : \A e \in evs(i) : Cardinality(At(l, <<e, i>>)) = 1            \* each event once
     /\ Len(l) = Cardinality(UNION {{<<e, i>> : e \in evs(i)} : i \in Nodes(q)})           \* and nothing else
     /\ \A i \in Nodes(q) : \A j \in Nodes(q) : i < j =>
           IF j < EndOf(q, i) THEN Idx(l, <<en(i), i>>) < Idx(l, <<en(j), j>>) /\ Idx(l, <<ex(j), j>>) < Idx(l, <<ex(i), i>>)
           ELSE Idx(l, <<ex(i), i>>) < Idx(l, <<en(j), j>>)
     /\ \A i \in Rules(q) : Known(q, i) => /\ l[Idx(l, <<"enter_every", i>>) + 1] = <<"enter_" \o NameOf(q, i), i>>
                                           /\ l[Idx(l, <<"exit_every", i>>) - 1] = <<"exit_" \o NameOf(q, i), i>>
\* C13 on the design: an independent recursive reading of the fold
RECURSIVE Big(_), BigKids(_, _, _)
Big(i) == IF q[i].k # "R" THEN (IF v.l THEN <<i>> ELSE Default)
          ELSE IF v.h /\ Known(q, i) /\ q[i].ix \in v.prune THEN <<i>>
          ELSE BigKids(i, Kids(q, i), Default)
BigKids(i, ks, acc) == IF ks = <<>> \/ StopsAt(v, i, acc) THEN acc
                       ELSE BigKids(i, Tail(ks), IF v.fold THEN acc \o Big(Head(ks)) ELSE Big(Head(ks)))
VisitOk == Job = "visit" /\ VDone(s) =>
  /\ s.ctl.v = Big(1)
  /\ \A a, b \in 1..Len(s.log) : a < b => s.log[a][2] < s.log[b][2]                        \* source order, at most once
  /\ (v.prune = {} /\ v.stop = {} /\ v.stopn = {} /\ v.h /\ v.l) =>
        {s.log[a][2] : a \in 1..Len(s.log)} = {i \in Nodes(q) : q[i].k # "R" \/ Known(q, i)}
\* C14, C15 on the design
RECURSIVE StartOf(_), StopOf(_), FirstSome(_), LastSome(_)
StartOf(i) == IF q[i].k # "R" THEN <<i>> ELSE FirstSome(Kids(q, i))
FirstSome(ks) == IF ks = <<>> THEN <<>> ELSE LET x == StartOf(Head(ks)) IN IF x # <<>> THEN x ELSE FirstSome(Tail(ks))
StopOf(i) == IF q[i].k # "R" THEN <<i>> ELSE LastSome(Kids(q, i))
LastSome(ks) == IF ks = <<>> THEN <<>> ELSE LET x == StopOf(ks[Len(ks)]) IN IF x # <<>> THEN x ELSE LastSome(SubSeq(ks, 1, Len(ks) - 1))
QueryOk == Job = "query" =>
  /\ WellFormed(q)
  /\ \A i \in Rules(q) :
       /\ {Kids(q, i)[a] : a \in 1..Len(Kids(q, i))} =
            UNION {{Select(q, i, k, ty)[a] : a \in 1..Len(Select(q, i, k, ty))} : k \in {"T", "E"}, ty \in {"0", "5"}}
            \cup UNION {{Select(q, i, "R", x)[a] : a \in 1..Len(Select(q, i, "R", x))} : x \in Ixs}
       /\ StartLeaf(q, i) = StartOf(i) /\ StopLeaf(q, i) = StopOf(i)
Halts == Job # "query" => <>(IF Job = "visit" THEN VDone(s) ELSE WDone(s))
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq(TreesOf(ExportN)))
=============================================================================
