---------------------------- MODULE MC_Analysis ----------------------------
(* Exhaustive small scope: every grammar over MCN nonterminals, MCT          *)
(* terminals, right-hand sides up to MaxR and up to MaxP productions; every  *)
(* visiting order.  Also ties the equational definitions of CFG to           *)
(* derivations, and exports the grammars for replay into the code.           *)
EXTENDS Analysis, TLC, Json, SequencesExt, IOUtils
CONSTANTS MCN, MCT, MaxR, MaxP, Orders
Syms == {<<"N", a>> : a \in MCN} \cup {<<"T", t>> : t \in MCT}
Rhs == UNION {[1..n -> Syms] : n \in 0..MaxR}
Prods == {[l |-> a, r |-> s] : a \in MCN, s \in Rhs}
RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN {{}} ELSE LET S == UpTo(n - 1) IN S \cup {s \cup {p} : s \in S, p \in Prods}
Grammars == UpTo(MaxP)

\* Derivations, bounded: sentential forms reachable from form x by leftmost steps,
\* forms longer than b cut off.
Step1(x, PP) == LET i == CHOOSE j \in 1..Len(x) : IsN(x[j]) /\ \A k \in 1..(j-1) : IsT(x[k])
                IN {SubSeq(x, 1, i-1) \o p.r \o SubSeq(x, i+1, Len(x)) : p \in {q \in PP : q.l = Id(x[i])}}
HasN(x) == \E i \in 1..Len(x) : IsN(x[i])
RECURSIVE Reach(_, _, _)
Reach(S, PP, b) ==
  LET T == S \cup {y \in UNION {IF HasN(x) /\ ~IsT(x[1]) THEN Step1(x, PP) ELSE {} : x \in S} : Len(y) <= b}
  IN IF T = S THEN S ELSE Reach(T, PP, b)
DerivOK(PP, b) ==
  LET nul == Nullable(PP)  F == First(PP, MCN)
  IN \A A \in MCN :
       LET R == Reach({<< <<"N", A>> >>}, PP, b)
       IN /\ (<<>> \in R) <=> (A \in nul)
          /\ {Id(x[1]) : x \in {y \in R : y # <<>> /\ IsT(y[1])}} = F[A]

MCInit == \E g \in Grammars : InitFor(g, MCN)
MCNext == IF Orders THEN Next
          ELSE \* one fixed order (larger scopes)
            \/ (phase \in {"first", "follow"} /\ todo # {} /\ LET p == CHOOSE q \in todo : TRUE IN VisitFirst(p) \/ VisitFollow(p))
            \/ EndFirstPass \/ EndFollowPass
            \/ (ins # {} /\ Insert(CHOOSE x \in ins : TRUE)) \/ EndTable
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
DerivationsAgree == phase = "first" /\ todo = P /\ ~mod => DerivOK(P, 5)

CountAgrees == phase = "done" => LET C == Cands(P, NulSet, First(P, N), Follow(P, N)) IN LL1C(C) <=> LL1F(C)
ToCase(g) == [prods |-> SetToSeq(g)]
Export == ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({ToCase(g) : g \in Grammars}))
ASSUME IOEnv.MC_OUT = "" \/ Export
=============================================================================
