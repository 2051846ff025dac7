-------------------------------- MODULE CFG --------------------------------
(* Meaning of plain context-free grammars: emptiness, FIRST, FOLLOW, the     *)
(* LL(1) condition and prediction cells, bounded languages.                  *)
(* A symbol is <<"N", id>> or <<"T", id>>; a production [l |-> id, r |-> Seq *)
(* of symbols].  Terminal 1 is the end marker, nonterminal 0 the start.      *)
EXTENDS Naturals, Sequences, FiniteSets

STOP == 1
START == 0

IsT(s) == s[1] = "T"
IsN(s) == s[1] = "N"
Id(s)  == s[2]
Range(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Least fixpoints.                                                          *)
RECURSIVE NullFix(_, _)
NullFix(P, S) ==
  LET S2 == S \cup {p.l : p \in {q \in P : \A i \in 1..Len(q.r) : IsN(q.r[i]) /\ Id(q.r[i]) \in S}}
  IN  IF S2 = S THEN S ELSE NullFix(P, S2)
Nullable(P) == NullFix(P, {})

SeqNull(r, nul) == \A i \in 1..Len(r) : IsN(r[i]) /\ Id(r[i]) \in nul

\* positions of r that can come first: everything before them can be empty
RECURSIVE HeadTo(_, _, _)
HeadTo(r, nul, i) == IF i > Len(r) THEN Len(r)
                     ELSE IF IsN(r[i]) /\ Id(r[i]) \in nul THEN HeadTo(r, nul, i + 1) ELSE i
SeqFirst(r, nul, F) ==
  UNION {IF IsT(r[i]) THEN {Id(r[i])} ELSE F[Id(r[i])] : i \in 1..HeadTo(r, nul, 1)}

ByLeft(P, N) == [A \in N |-> {p \in P : p.l = A}]

RECURSIVE FirstFix(_, _, _, _)
FirstFix(PL, N, nul, F) ==
  LET G == [A \in N |-> F[A] \cup UNION {SeqFirst(p.r, nul, F) : p \in PL[A]}]
  IN  IF G = F THEN F ELSE FirstFix(PL, N, nul, G)
First(P, N) == FirstFix(ByLeft(P, N), N, Nullable(P), [A \in N |-> {}])

Tail2(r, i) == SubSeq(r, i + 1, Len(r))
\* occurrences of nonterminals on right-hand sides: <<B, lhs, FIRST(rest), rest can be empty>>
Occs(P, nul, F) ==
  UNION { {<<Id(p.r[i]), p.l, SeqFirst(Tail2(p.r, i), nul, F), SeqNull(Tail2(p.r, i), nul)>>
            : i \in {j \in 1..Len(p.r) : IsN(p.r[j])}} : p \in P }
RECURSIVE FollowFix(_, _, _)
FollowFix(O, N, W) ==
  LET G == [B \in N |-> W[B] \cup UNION {o[3] \cup (IF o[4] THEN W[o[2]] ELSE {}) : o \in O[B]}]
  IN  IF G = W THEN W ELSE FollowFix(O, N, G)
FollowOf(P, N, nul, F) ==
  LET O == Occs(P, nul, F)
  IN  FollowFix([B \in N |-> {o \in O : o[1] = B}], N, [A \in N |-> IF A = START THEN {STOP} ELSE {}])
Follow(P, N) == FollowOf(P, N, Nullable(P), First(P, N))

-----------------------------------------------------------------------------
(* Prediction.                                                               *)
\* lookaheads that select production p
Select(p, nul, F, W) == SeqFirst(p.r, nul, F) \cup (IF SeqNull(p.r, nul) THEN W[p.l] ELSE {})
\* all <<A, t, p>> candidates
Cands(P, nul, F, W) == UNION { {<<p.l, t, p>> : t \in Select(p, nul, F, W)} : p \in P }
\* textbook LL(1): no cell has two candidates
LL1C(C) == \A c, d \in C : c[1] = d[1] /\ c[2] = d[2] => c[3] = d[3]
\* the same, by counting (MC_Analysis checks they agree)
LL1F(C) == Cardinality({<<c[1], c[2]>> : c \in C}) = Cardinality(C)

-----------------------------------------------------------------------------
(* Bounded languages (token strings of length at most k).                    *)
CatK(A, B, k) == {q[1] \o q[2] : q \in {z \in A \X B : Len(z[1]) + Len(z[2]) <= k}}
RECURSIVE SeqLang(_, _, _, _)
SeqLang(r, i, L, k) ==
  IF i > Len(r) THEN {<<>>}
  ELSE CatK(IF IsT(r[i]) THEN {<<Id(r[i])>>} ELSE L[Id(r[i])], SeqLang(r, i + 1, L, k), k)
RECURSIVE LangFix(_, _, _, _)
LangFix(PL, N, L, k) ==
  LET G == [A \in N |-> L[A] \cup UNION {SeqLang(p.r, 1, L, k) : p \in PL[A]}]
  IN  IF G = L THEN L ELSE LangFix(PL, N, G, k)
Lang(P, N, k) == LangFix(ByLeft(P, N), N, [A \in N |-> {}], k)
=============================================================================
