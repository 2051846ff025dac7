------------------------------- MODULE Lexer -------------------------------
(* Scanning a text by longest match over an ordered list of token patterns. *)
(* Text is a sequence of code points.  Patterns are syntax trees:           *)
(*   [o |-> "set", neg |-> BOOLEAN, r |-> <<<<lo, hi>>, ...>>]              *)
(*   [o |-> "seq"|"alt", a |-> <<..>>]                                      *)
(*   [o |-> "star"|"plus"|"opt", x |-> .., lazy |-> BOOLEAN]                *)
(* with the usual leftmost-first (preference ordered) meaning.              *)
EXTENDS Naturals, Sequences, FiniteSets

InRanges(ch, r) == \E i \in 1..Len(r) : r[i][1] <= ch /\ ch <= r[i][2]
SetHas(s, ch) == InRanges(ch, s.r) # s.neg

\* order-preserving removal of repetitions
RECURSIVE DedupFrom(_, _, _)
DedupFrom(q, i, acc) == IF i > Len(q) THEN acc
                        ELSE DedupFrom(q, i + 1, IF \E k \in 1..Len(acc) : acc[k] = q[i] THEN acc ELSE Append(acc, q[i]))
Dedup(q) == IF Len(q) <= 1 THEN q ELSE DedupFrom(q, 1, <<>>)

\* Ends(re, w, i): possible end positions of a match starting after i characters, most preferred first
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsAlt(_, _, _, _), EndsStar(_, _, _), FlatEnds(_, _, _, _), FlatStar(_, _, _, _), Run(_, _, _)
\* furthest position reachable over characters of a set
Run(s, w, i) == IF i + 64 <= Len(w) /\ \A k \in 1..64 : SetHas(s, w[i + k]) THEN Run(s, w, i + 64)
                ELSE IF i < Len(w) /\ SetHas(s, w[i + 1]) THEN Run(s, w, i + 1) ELSE i
Down(i, j) == [k \in 1..(j - i + 1) |-> j - k + 1]      \* j, j-1, .., i
Up(i, j) == [k \in 1..(j - i + 1) |-> i + k - 1]
Ends(re, w, i) ==
  CASE re.o = "set" -> IF i < Len(w) /\ SetHas(re, w[i + 1]) THEN <<i + 1>> ELSE <<>>
    [] re.o = "seq" -> EndsSeq(re.a, 1, w, i)
    [] re.o = "alt" -> Dedup(EndsAlt(re.a, 1, w, i))
    [] re.o = "opt" -> LET e == Ends(re.x, w, i) IN Dedup(IF re.lazy THEN <<i>> \o e ELSE e \o <<i>>)
    [] re.o = "star" -> EndsStar(re, w, i)
    [] OTHER -> \* plus
         LET st == [o |-> "star", x |-> re.x, lazy |-> re.lazy] IN Dedup(FlatEnds(st, w, Ends(re.x, w, i), 1))
FlatEnds(re, w, es, k) == IF k > Len(es) THEN <<>> ELSE Ends(re, w, es[k]) \o FlatEnds(re, w, es, k + 1)
EndsSeq(a, k, w, i) ==
  IF k > Len(a) THEN <<i>>
  ELSE LET es == Ends(a[k], w, i)
       IN IF k = Len(a) THEN es
          ELSE Dedup(FlatEnds([o |-> "seq", a |-> SubSeq(a, k + 1, Len(a))], w, es, 1))
EndsAlt(a, k, w, i) == IF k > Len(a) THEN <<>> ELSE Ends(a[k], w, i) \o EndsAlt(a, k + 1, w, i)
EndsStar(re, w, i) ==
  IF re.x.o = "set" THEN (IF re.lazy THEN Up(i, Run(re.x, w, i)) ELSE Down(i, Run(re.x, w, i)))
  ELSE LET es == SelectSeq(Ends(re.x, w, i), LAMBDA e : e # i)
           more == FlatStar(re, w, es, 1)
       IN Dedup(IF re.lazy THEN <<i>> \o more ELSE more \o <<i>>)
FlatStar(re, w, es, k) == IF k > Len(es) THEN <<>> ELSE EndsStar(re, w, es[k]) \o FlatStar(re, w, es, k + 1)

\* The same first choice found by backtracking over a stack of what is still to be matched
\* (MC_Lexer checks it equal to Head(Ends)); 0 for no match, else end + 1.
RECURSIVE Bt(_, _, _), BtAlt(_, _, _, _, _), BtDown(_, _, _, _), BtUp(_, _, _, _)
Bt(stk, w, i) ==
  IF stk = <<>> THEN i + 1
  ELSE LET h == Head(stk)  r == Tail(stk)
       IN CASE h.o = "set" -> IF i < Len(w) /\ SetHas(h, w[i + 1]) THEN Bt(r, w, i + 1) ELSE 0
            [] h.o = "seq" -> Bt(h.a \o r, w, i)
            [] h.o = "alt" -> BtAlt(h.a, 1, r, w, i)
            [] h.o = "opt" -> IF h.lazy THEN LET a == Bt(r, w, i) IN IF a # 0 THEN a ELSE Bt(<<h.x>> \o r, w, i)
                              ELSE LET a == Bt(<<h.x>> \o r, w, i) IN IF a # 0 THEN a ELSE Bt(r, w, i)
            [] h.o = "more" -> IF i = h.from THEN 0 ELSE Bt(<<h.st>> \o r, w, i)
            [] h.o = "star" ->
                 IF h.x.o = "set" THEN (IF h.lazy THEN BtUp(r, w, i, Run(h.x, w, i)) ELSE BtDown(r, w, Run(h.x, w, i), i))
                 ELSE LET again == <<h.x, [o |-> "more", from |-> i, st |-> h]>> \o r
                      IN IF h.lazy THEN LET a == Bt(r, w, i) IN IF a # 0 THEN a ELSE Bt(again, w, i)
                         ELSE LET a == Bt(again, w, i) IN IF a # 0 THEN a ELSE Bt(r, w, i)
            [] OTHER -> Bt(<<h.x, [o |-> "star", x |-> h.x, lazy |-> h.lazy]>> \o r, w, i)
BtAlt(a, k, r, w, i) == IF k > Len(a) THEN 0 ELSE LET x == Bt(<<a[k]>> \o r, w, i) IN IF x # 0 THEN x ELSE BtAlt(a, k + 1, r, w, i)
BtDown(r, w, j, i) == IF j < i THEN 0 ELSE LET x == Bt(r, w, j) IN IF x # 0 THEN x ELSE IF j = i THEN 0 ELSE BtDown(r, w, j - 1, i)
BtUp(r, w, j, z) == IF j > z THEN 0 ELSE LET x == Bt(r, w, j) IN IF x # 0 THEN x ELSE BtUp(r, w, j + 1, z)

\* end of the preferred match, i when there is none
MatchEnd(re, w, i) == LET e == Bt(<<re>>, w, i) IN IF e = 0 THEN i ELSE e - 1

\* the winning token at i: <<index in pats, end>>, index 0 when nothing (non-empty) matches
RECURSIVE BestFrom(_, _, _, _, _)
BestFrom(pats, k, w, i, best) ==
  IF k > Len(pats) THEN best
  ELSE LET e == MatchEnd(pats[k], w, i)
       IN BestFrom(pats, k + 1, w, i, IF e > best[2] THEN <<k, e>> ELSE best)
Best(pats, w, i) == BestFrom(pats, 1, w, i, <<0, i>>)

-----------------------------------------------------------------------------
(* Positions: byte offsets of UTF-8, lines counted by line feeds, columns   *)
(* in bytes since the last line feed.                                       *)
LF == 10
Width(ch) == IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
Wider(w, i, j, b) == Cardinality({k \in (i + 1)..j : w[k] >= b})
NBytes(w, i, j) == (j - i) + Wider(w, i, j, 128) + Wider(w, i, j, 2048) + Wider(w, i, j, 65536)
RECURSIVE LastFeed(_, _, _)
LastFeed(w, i, j) == IF j <= i \/ w[j] = LF THEN j ELSE LastFeed(w, i, j - 1)
\* from position (off, line, col) over w[i+1..j]
Advance(w, i, j, off, line, col) ==
  LET lfs == Cardinality({k \in (i + 1)..j : w[k] = LF})
  IN IF lfs = 0 THEN [off |-> off + NBytes(w, i, j), line |-> line, col |-> col + NBytes(w, i, j)]
     ELSE [off |-> off + NBytes(w, i, j), line |-> line + lfs, col |-> NBytes(w, LastFeed(w, i, j), j)]

-----------------------------------------------------------------------------
(* The machine.                                                             *)
VARIABLES text, pats, marks,   \* marks: delivers an end marker (bootstrapped and generated lexers)
          pos, at,             \* characters consumed; position record
          n,                   \* tokens delivered
          ended                \* end marker delivered
lvars == <<text, pats, marks, pos, at, n, ended>>
LexInit(t, p, m) == /\ text = t /\ pats = p /\ marks = m /\ pos = 0 /\ n = 0 /\ ended = FALSE
                    /\ at = [off |-> 0, line |-> 0, col |-> 0]
AtEnd == pos = Len(text)
NextWin == Best(pats, text, pos)
\* the piece pos..j as token number k of the list
Piece(k, j) ==
  LET to == Advance(text, pos, j, at.off, at.line, at.col)
  IN [ty |-> k + 1, tx |-> SubSeq(text, pos + 1, j), sl |-> at.line, sc |-> at.col, el |-> to.line, ec |-> to.col,
      ti |-> n, cs |-> at.off, ce |-> to.off]
Move(j) == /\ pos' = j /\ at' = Advance(text, pos, j, at.off, at.line, at.col) /\ n' = n + 1
           /\ UNCHANGED <<text, pats, marks, ended>>
Take(k, j, tok) == tok = Piece(k, j) /\ Move(j)
StopText == <<95, 83, 84, 79, 80>>
ScanTok(tok) == ~AtEnd /\ LET b == NextWin IN b[1] # 0 /\ Take(b[1], b[2], tok)
EndMark == [ty |-> 1, tx |-> StopText, sl |-> at.line, sc |-> at.col, el |-> at.line, ec |-> at.col, ti |-> n, cs |-> at.off, ce |-> at.off]
Stop == /\ AtEnd /\ marks /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<text, pats, marks, pos, at, n>>
ScanStop(tok) == tok = EndMark /\ Stop
Refuses == IF AtEnd THEN ~marks \/ ended ELSE NextWin[1] = 0
ScanErr == Refuses /\ UNCHANGED lvars
=============================================================================
