----------------------------- MODULE LL1Parser -----------------------------
(* The table-driven parser as a machine: one frame per open expansion, one  *)
(* action per symbol.  A mismatching terminal is reported and consumed, a   *)
(* missing cell or the end of the token vector fails.                       *)
EXTENDS CFG
VARIABLES toks,   \* input: records with at least field ty
          tab,    \* [<<nonterminal, terminal>> -> production]
          U,      \* helper (unnamed) nonterminals
          stack,  \* frames [A, rest, ch], innermost last
          cur,    \* tokens consumed
          rep,    \* something was reported
          st,     \* "run" | "ok" | "fail"
          res     \* resulting tree, as a sequence of length 0 or 1
pvars == <<toks, tab, U, stack, cur, rep, st, res>>

Node(A, ch) == [k |-> "R", ix |-> A, ch |-> ch]
Leaf(t) == [k |-> "T", t |-> t]
CanOpen(A) == cur < Len(toks) /\ <<A, toks[cur + 1].ty>> \in DOMAIN tab
Frame(A) == [A |-> A, rest |-> tab[<<A, toks[cur + 1].ty>>].r, ch |-> <<>>]

ParseInit(t, T, un, entry) ==
  /\ toks = t /\ tab = T /\ U = un /\ cur = 0 /\ rep = FALSE /\ res = <<>>
  /\ LET ok == Len(t) > 0 /\ <<entry, t[1].ty>> \in DOMAIN T
     IN /\ st = IF ok THEN "run" ELSE "fail"
        /\ stack = IF ok THEN <<[A |-> entry, rest |-> T[<<entry, t[1].ty>>].r, ch |-> <<>>]>> ELSE <<>>

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Running == st = "run" /\ stack # <<>>
\* next symbol is a terminal
Shift ==
  /\ Running /\ Top.rest # <<>> /\ IsT(Head(Top.rest))
  /\ IF cur >= Len(toks) THEN st' = "fail" /\ UNCHANGED <<stack, cur, rep>>
     ELSE /\ rep' = (rep \/ toks[cur + 1].ty # Id(Head(Top.rest)))
          /\ cur' = cur + 1
          /\ stack' = Append(Below, [Top EXCEPT !.rest = Tail(@), !.ch = Append(@, Leaf(toks[cur + 1]))])
          /\ UNCHANGED st
  /\ UNCHANGED <<toks, tab, U, res>>
\* next symbol is a nonterminal
Expand ==
  /\ Running /\ Top.rest # <<>> /\ IsN(Head(Top.rest))
  /\ LET A == Id(Head(Top.rest))
     IN IF ~CanOpen(A) THEN st' = "fail" /\ UNCHANGED stack
        ELSE stack' = Append(Append(Below, [Top EXCEPT !.rest = Tail(@)]), Frame(A)) /\ UNCHANGED st
  /\ UNCHANGED <<toks, tab, U, cur, rep, res>>
\* the expansion is complete: a named one becomes a child, a helper dissolves
Reduce ==
  /\ Running /\ Top.rest = <<>>
  /\ IF Below = <<>> THEN st' = "ok" /\ res' = <<Node(Top.A, Top.ch)>> /\ stack' = <<>>
     ELSE /\ LET p == Below[Len(Below)]
                 add == IF Top.A \in U THEN Top.ch ELSE <<Node(Top.A, Top.ch)>>
             IN stack' = [Below EXCEPT ![Len(Below)] = [p EXCEPT !.ch = @ \o add]]
          /\ UNCHANGED <<st, res>>
  /\ UNCHANGED <<toks, tab, U, cur, rep>>
PNext == Shift \/ Expand \/ Reduce

-----------------------------------------------------------------------------
(* What a parse tree is, independently of the machine.                      *)
\* ends in w of r, helpers expanded through the facts S
RECURSIVE HEnds(_, _, _, _, _, _)
HEnds(r, k, w, I, S, H) ==
  IF k > Len(r) \/ I = {} THEN I
  ELSE HEnds(r, k + 1, w,
             IF IsN(r[k]) /\ Id(r[k]) \in H THEN UNION {S[Id(r[k])][i] : i \in I}
             ELSE {i + 1 : i \in {j \in I : j < Len(w) /\ w[j + 1] = r[k]}}, S, H)
RECURSIVE HFix(_, _, _, _)
HFix(PL, w, S, H) ==
  LET G == [a \in H |-> [i \in 0..Len(w) |-> UNION {HEnds(p.r, 1, w, {i}, S, H) : p \in PL[a]}]]
  IN IF G = S THEN S ELSE HFix(PL, w, G, H)
\* w (a word of symbols) is an expansion of A with helpers dissolved
Expansion(PL, H, A, w) ==
  LET S == HFix(PL, w, [a \in H |-> [i \in 0..Len(w) |-> {}]], H)
  IN \E p \in PL[A] : Len(w) \in HEnds(p.r, 1, w, {0}, S, H)
SymOfNode(t) == IF t.k = "R" THEN <<"N", t.ix>> ELSE IF t.k = "T" THEN <<"T", t.t.ty>> ELSE <<"E", 0>>
RECURSIVE IsTree(_, _, _)
IsTree(t, PL, H) ==
  t.k = "R" => /\ t.ix \in DOMAIN PL
               /\ Expansion(PL, H, t.ix, [i \in 1..Len(t.ch) |-> SymOfNode(t.ch[i])])
               /\ \A i \in 1..Len(t.ch) : (t.ch[i].k = "R" => t.ch[i].ix \notin H) /\ IsTree(t.ch[i], PL, H)
RECURSIVE Yield(_), YieldSeq(_, _)
Yield(t) == IF t.k # "R" THEN <<t.t>> ELSE YieldSeq(t.ch, 1)
YieldSeq(ch, i) == IF i > Len(ch) THEN <<>> ELSE Yield(ch[i]) \o YieldSeq(ch, i + 1)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
=============================================================================
