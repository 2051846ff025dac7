------------------------------ MODULE MC_Lexer ------------------------------
(* Small scope: every text up to MaxLen over Alphabet, scanned to the end.   *)
EXTENDS Lexer, Patterns, TLC, Json, SequencesExt, IOUtils
CONSTANTS Alphabet, MaxLen, Which, ExportLen
VARIABLES out      \* tokens delivered so far
P == IF Which = "v1" THEN V1Pats ELSE IF Which = "boot" THEN BootPats
     ELSE << Seq2(<<C(97), Star(Alt(<<C(97), Lit(<<98, 97>>)>>))>>), Alt(<<C(97), Lit(<<97, 98>>)>>), Plus(C(98)), LStar(C(97)),
             Seq2(<<C(98), Opt(C(97)), C(98)>>) >>
Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
MCInit == (\E t \in Texts, m \in BOOLEAN : LexInit(t, P, m)) /\ out = <<>>
TheTok == LET b == NextWin IN Piece(b[1], b[2])
MCNext == \/ (~AtEnd /\ NextWin[1] # 0 /\ ScanTok(TheTok) /\ out' = Append(out, TheTok))
          \/ (AtEnd /\ ScanStop(EndMark) /\ out' = Append(out, EndMark))
MCSpec == MCInit /\ [][MCNext]_<<lvars, out>> /\ WF_<<lvars, out>>(MCNext)

RECURSIVE Cat(_, _)
Real == SelectSeq(out, LAMBDA t : t.ty # 1)
Cat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i].tx \o Cat(q, i + 1)
\* C09 on the design: pieces cover the consumed prefix, are non-empty, offsets and lines chain
Covers == /\ Cat(Real, 1) = SubSeq(text, 1, pos)
          /\ \A i \in 1..Len(Real) : Real[i].tx # <<>> /\ Real[i].ti = i - 1
          /\ \A i \in 1..(Len(out) - 1) : out[i].ce = out[i + 1].cs /\ out[i].el = out[i + 1].sl /\ out[i].ec = out[i + 1].sc
RECURSIVE Bytes(_, _)
Bytes(w, j) == IF j = 0 THEN 0 ELSE Width(w[j]) + Bytes(w, j - 1)
LastLF(j) == LET S0 == {k \in 1..j : text[k] = LF} IN IF S0 = {} THEN 0 ELSE CHOOSE k \in S0 : \A x \in S0 : x <= k
Where == /\ at.off = Bytes(text, pos)
         /\ at.line = Cardinality({k \in 1..pos : text[k] = LF})
         /\ at.col = Bytes(text, pos) - Bytes(text, LastLF(pos))
OneStop == Cardinality({i \in 1..Len(out) : out[i].ty = 1}) <= 1 /\ (ended => AtEnd /\ out[Len(out)].ty = 1)
\* the preference-ordered matcher finds exactly the declarative matches
RECURSIVE In(_, _, _, _)
In(re, w, i, j) ==
  CASE re.o = "set" -> j = i + 1 /\ SetHas(re, w[j])
    [] re.o = "seq" -> IF re.a = <<>> THEN i = j
                       ELSE \E m \in i..j : In(re.a[1], w, i, m) /\ In([o |-> "seq", a |-> Tail(re.a)], w, m, j)
    [] re.o = "alt" -> \E k \in 1..Len(re.a) : In(re.a[k], w, i, j)
    [] re.o = "opt" -> i = j \/ In(re.x, w, i, j)
    [] re.o = "star" -> i = j \/ \E m \in (i + 1)..j : In(re.x, w, i, m) /\ In(re, w, m, j)
    [] OTHER -> \E m \in i..j : In(re.x, w, i, m) /\ In([o |-> "star", x |-> re.x, lazy |-> FALSE], w, m, j)
Matcher == pos = 0 /\ out = <<>> => \A k \in 1..Len(pats) :
             LET e == Ends(pats[k], text, 0) IN
             /\ Bt(<<pats[k]>>, text, 0) = (IF e = <<>> THEN 0 ELSE e[1] + 1)
             /\ {e[i] : i \in 1..Len(e)} = {j \in 0..Len(text) : In(pats[k], text, 0, j)}
\* C10: nobody matches longer; equal length only later in the list
Winner == ~AtEnd => LET b == NextWin IN
             \A k \in 1..Len(pats) : LET e == MatchEnd(pats[k], text, pos) IN e <= b[2] /\ (e = b[2] /\ e > pos => k >= b[1])
Stops == <>Refuses
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq(UNION {[1..k -> Alphabet] : k \in 0..ExportLen}))
=============================================================================
