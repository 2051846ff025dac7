-------------------------------- MODULE Tree --------------------------------
(* Syntax trees as preorder sequences of nodes; a node's identity is its     *)
(* place in the sequence.  A node has a kind k ("R" rule, "T" terminal,      *)
(* "E" error leaf); rule nodes carry their number ix and their number of     *)
(* children n.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE EndOf(_, _), EndKids(_, _, _)
\* first position after the subtree at i
EndOf(q, i) == IF q[i].k = "R" THEN EndKids(q, i + 1, q[i].n) ELSE i + 1
EndKids(q, i, n) == IF n = 0 THEN i ELSE EndKids(q, EndOf(q, i), n - 1)
RECURSIVE KidsFrom(_, _, _)
KidsFrom(q, i, n) == IF n = 0 THEN <<>> ELSE <<i>> \o KidsFrom(q, EndOf(q, i), n - 1)
Kids(q, i) == IF q[i].k = "R" THEN KidsFrom(q, i + 1, q[i].n) ELSE <<>>
Nodes(q) == 1..Len(q)
Rules(q) == {i \in Nodes(q) : q[i].k = "R"}
\* leaves below i, left to right
\* leaves below i, left to right
Leaves(q, i) == SelectSeq([x \in 1..(EndOf(q, i) - i) |-> i + x - 1], LAMBDA j : q[j].k # "R")
WellFormed(q) == Len(q) > 0 /\ EndOf(q, 1) = Len(q) + 1
=============================================================================
