----------------------------- MODULE Vocabulary -----------------------------
(* The symbol table: two independent partial one-to-one namings.  ids and   *)
(* names are opaque values; the start and stop markers are terminals 0, 1.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Id0, Id1            \* the ids of the two markers as they are written in histories
VARIABLES T,   \* terminals: set of <<id, name>>
          M,   \* named nonterminals: set of <<id, name>>
          U    \* unnamed nonterminals: set of ids
vvars == <<T, M, U>>

T0 == {<<Id0, "_START">>, <<Id1, "_STOP">>}
VInit == T = T0 /\ M = {} /\ U = {}

Ids(R) == {x[1] : x \in R}
Names(R) == {x[2] : x \in R}
NtIds == Ids(M) \cup U

\* success conditions
OkT(i, n) == i \notin Ids(T) /\ n \notin Names(T)
OkM(i, n) == i \notin NtIds /\ n \notin Names(M)
OkU(i) == i \notin NtIds

AddT(i, n, ret) == /\ ret = OkT(i, n)
                   /\ T' = IF OkT(i, n) THEN T \cup {<<i, n>>} ELSE T
                   /\ UNCHANGED <<M, U>>
AddM(i, n, ret) == /\ ret = OkM(i, n)
                   /\ M' = IF OkM(i, n) THEN M \cup {<<i, n>>} ELSE M
                   /\ UNCHANGED <<T, U>>
AddU(i, ret) == /\ ret = OkU(i)
                /\ U' = IF OkU(i) THEN U \cup {i} ELSE U
                /\ UNCHANGED <<T, M>>

-----------------------------------------------------------------------------
\* lookups: sequences of length 0 or 1
One(S) == IF S = {} THEN <<>> ELSE <<CHOOSE x \in S : TRUE>>
NameOf(R, i) == One({x[2] : x \in {y \in R : y[1] = i}})
IdOf(R, n) == One({x[1] : x \in {y \in R : y[2] = n}})

OneToOne(R) == \A x, y \in R : (x[1] = y[1] \/ x[2] = y[2]) => x = y
Consistent == OneToOne(T) /\ OneToOne(M) /\ U \cap Ids(M) = {} /\ T0 \subseteq T
OnlyGrows == [][T \subseteq T' /\ M \subseteq M' /\ U \subseteq U']_vvars
=============================================================================
