------------------------------ MODULE Analysis ------------------------------
(* The grammar analysis as the tool performs it: passes over an unordered    *)
(* production set that update FIRST information per production and per       *)
(* nonterminal until a pass changes nothing; then the same for FOLLOW; then  *)
(* one insertion per (production, lookahead) into the prediction table, a    *)
(* collision being reported.  The order inside a pass is arbitrary (hash     *)
(* order): every order is a behaviour.                                       *)
EXTENDS CFG
VARIABLES P,        \* productions (constant during a behaviour)
          N,        \* declared nonterminals
          phase,    \* "first" | "follow" | "table" | "done"
          todo,     \* productions still to visit in this pass
          mod,      \* this pass changed something
          nE, nF,   \* emptiness flag / FIRST set per nonterminal
          pE, pF,   \* per production
          W,        \* FOLLOW per nonterminal
          tab,      \* table: set of <<A, t, p>>, functional in <<A, t>>
          ins,      \* insertions still to perform: set of <<A, t, p, how>>
          rep       \* a collision was reported
vars == <<P, N, phase, todo, mod, nE, nF, pE, pF, W, tab, ins, rep>>

InitFor(PP, NN) ==
  /\ P = PP /\ N = NN /\ phase = "first" /\ todo = PP /\ mod = FALSE
  /\ nE = [A \in NN |-> FALSE] /\ nF = [A \in NN |-> {}]
  /\ pE = [p \in PP |-> FALSE] /\ pF = [p \in PP |-> {}]
  /\ W = [A \in NN |-> {}] /\ tab = {} /\ ins = {} /\ rep = FALSE

\* what one look at a right-hand side sees with the current approximation
SeenNull(r) == SeqNull(r, {A \in N : nE[A]})
SeenFirst(r) == SeqFirst(r, {A \in N : nE[A]}, nF)

VisitFirst(p) ==
  /\ phase = "first" /\ p \in todo
  /\ LET e == SeenNull(p.r)
         f == pF[p] \cup SeenFirst(p.r)
         nEn == [nE EXCEPT ![p.l] = @ \/ e]
         nFn == [nF EXCEPT ![p.l] = @ \cup f]
     IN /\ pE' = [pE EXCEPT ![p] = e]
        /\ pF' = [pF EXCEPT ![p] = f]
        /\ nE' = nEn /\ nF' = nFn
        /\ mod' = (mod \/ pE[p] # e \/ pF[p] # f \/ nEn # nE \/ nFn # nF)
  /\ todo' = todo \ {p}
  /\ UNCHANGED <<P, N, phase, W, tab, ins, rep>>

EndFirstPass ==
  /\ phase = "first" /\ todo = {}
  /\ mod' = FALSE /\ todo' = P
  /\ IF mod THEN UNCHANGED <<phase, W>>
     ELSE phase' = "follow" /\ W' = [W EXCEPT ![START] = {STOP}]
  /\ UNCHANGED <<P, N, nE, nF, pE, pF, tab, ins, rep>>

\* one production: its nonterminal occurrences from left to right
RECURSIVE FollowWalk(_, _, _)
FollowWalk(p, i, X) ==
  IF i > Len(p.r) THEN X
  ELSE IF IsT(p.r[i]) THEN FollowWalk(p, i + 1, X)
  ELSE LET rest == Tail2(p.r, i)
           add == SeenFirst(rest) \cup (IF SeenNull(rest) THEN X[p.l] ELSE {})
       IN FollowWalk(p, i + 1, [X EXCEPT ![Id(p.r[i])] = @ \cup add])
VisitFollow(p) ==
  /\ phase = "follow" /\ p \in todo
  /\ LET X == FollowWalk(p, 1, W) IN W' = X /\ mod' = (mod \/ X # W)
  /\ todo' = todo \ {p}
  /\ UNCHANGED <<P, N, phase, nE, nF, pE, pF, tab, ins, rep>>

EndFollowPass ==
  /\ phase = "follow" /\ todo = {}
  /\ IF mod THEN todo' = P /\ mod' = FALSE /\ UNCHANGED <<phase, ins>>
     ELSE /\ phase' = "table" /\ UNCHANGED <<todo, mod>>
          /\ ins' = UNION { {<<p.l, t, p, "first">> : t \in pF[p]}
                            \cup (IF pE[p] THEN {<<p.l, t, p, "follow">> : t \in W[p.l]} ELSE {}) : p \in P }
  /\ UNCHANGED <<P, N, nE, nF, pE, pF, W, tab, rep>>

Insert(x) ==
  /\ phase = "table" /\ x \in ins
  /\ ins' = ins \ {x}
  /\ tab' = {y \in tab : <<y[1], y[2]>> # <<x[1], x[2]>>} \cup {<<x[1], x[2], x[3]>>}
  /\ rep' = (rep \/ \E y \in tab : <<y[1], y[2]>> = <<x[1], x[2]>>)
  /\ UNCHANGED <<P, N, phase, todo, mod, nE, nF, pE, pF, W>>
EndTable ==
  /\ phase = "table" /\ ins = {} /\ phase' = "done"
  /\ UNCHANGED <<P, N, todo, mod, nE, nF, pE, pF, W, tab, ins, rep>>

Next == \/ \E p \in todo : VisitFirst(p) \/ VisitFollow(p)
        \/ EndFirstPass \/ EndFollowPass
        \/ \E x \in ins : Insert(x)
        \/ EndTable

-----------------------------------------------------------------------------
(* Properties.                                                               *)
NulSet == Nullable(P)
\* at every moment the approximation is below the meaning ...
FirstSound == /\ \A A \in N : (nE[A] => A \in NulSet) /\ nF[A] \subseteq First(P, N)[A]
              /\ \A p \in P : (pE[p] => SeqNull(p.r, NulSet))
                              /\ pF[p] \subseteq SeqFirst(p.r, NulSet, First(P, N))
\* ... and exact when the phase is over, whatever the order was           (C01, C02)
FirstExact == phase \in {"follow", "table", "done"} =>
              /\ {A \in N : nE[A]} = NulSet /\ nF = First(P, N)
              /\ \A p \in P : (pE[p] <=> SeqNull(p.r, NulSet)) /\ pF[p] = SeqFirst(p.r, NulSet, First(P, N))
FollowSound == phase # "first" => \A A \in N : W[A] \subseteq Follow(P, N)[A]
FollowExact == phase \in {"table", "done"} => W = Follow(P, N)
\* table (C03)
TableOK ==
  phase = "done" =>
    LET C == Cands(P, NulSet, First(P, N), Follow(P, N))
    IN /\ tab \subseteq C                                            \* only own candidates
       /\ {<<c[1], c[2]>> : c \in C} = {<<c[1], c[2]>> : c \in tab}  \* every cell filled
       /\ LL1C(tab)                                                  \* one entry per cell
       /\ (LL1C(C) => tab = C /\ ~rep)
       /\ (~LL1C(C) => rep)
Termination == <>(phase = "done")
=============================================================================
