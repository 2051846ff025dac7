------------------------------ MODULE Literals ------------------------------
(* String literals of a grammar: the text a literal denotes, and the pass    *)
(* that gives every distinct literal one numbered token.                     *)
EXTENDS Naturals, Sequences, FiniteSets
LBs == 92  LQt == 39
HexV(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48 ELSE ch - 87
RECURSIVE UpTo(_, _), HexNum(_, _, _)
UpTo(q, i) == IF q[i] = 125 THEN i ELSE UpTo(q, i + 1)             \* position of the closing brace
HexNum(q, i, acc) == IF i > Len(q) THEN acc ELSE HexNum(q, i + 1, acc * 16 + HexV(q[i]))
Simple == {97, 102, 110, 114, 116, 118, LBs, LQt}
SimpleOf(ch) == CASE ch = 97 -> 7 [] ch = 102 -> 12 [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] ch = 118 -> 11 [] OTHER -> ch
RECURSIVE Resolve(_, _)
Resolve(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] # LBs THEN <<q[i]>> \o Resolve(q, i + 1)
  ELSE IF q[i + 1] \in Simple THEN <<SimpleOf(q[i + 1])>> \o Resolve(q, i + 2)
  ELSE LET e == UpTo(q, i)                                          \* \u{hex}, \u{0hex}, \u{0xhex}
           d == SubSeq(q, i + 3, e - 1)
           h == IF Len(d) >= 2 /\ d[1] = 48 /\ d[2] = 120 THEN SubSeq(d, 3, Len(d)) ELSE d
       IN <<HexNum(h, 1, 0)>> \o Resolve(q, e + 1)
\* raw: the literal as written, with its quotes
Denote(raw) == Resolve(SubSeq(raw, 2, Len(raw) - 1), 1)
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* where the literal's pattern matches on text t: [start, end] or nothing
DMatch(d, t) == IF PrefixOf(d, t) THEN <<0, Len(d)>> ELSE <<>>
MatchOf(raw, t) == DMatch(Denote(raw), t)

(* ---- the literals of a grammar, in order of appearance, with repetitions --*)
RECURSIVE LitsAlts(_, _), LitsAlt(_, _)
LitsElem(e) == IF e.k = "S" THEN <<e.n>> ELSE IF e.k = "B" THEN LitsAlts(e.alts, 1) ELSE <<>>
LitsAlt(a, i) == IF i > Len(a) THEN <<>> ELSE LitsElem(a[i]) \o LitsAlt(a, i + 1)
LitsAlts(as, i) == IF i > Len(as) THEN <<>> ELSE LitsAlt(as[i], 1) \o LitsAlts(as, i + 1)
RECURSIVE LitsOf(_, _)
LitsOf(g, i) == IF i > Len(g) THEN <<>> ELSE (IF g[i].k = "P" THEN LitsAlts(g[i].alts, 1) ELSE <<>>) \o LitsOf(g, i + 1)
RECURSIVE NoRepeats(_, _)
NoRepeats(q, acc) == IF q = <<>> THEN acc ELSE NoRepeats(Tail(q), IF \E i \in 1..Len(acc) : acc[i] = Head(q) THEN acc ELSE Append(acc, Head(q)))
GrammarLits(g) == NoRepeats(LitsOf(g, 1), <<>>)
=============================================================================
