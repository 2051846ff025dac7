------------------------------ MODULE JsonText ------------------------------
(* JSON documents: bytes -> code points -> values.  A value is a record with *)
(* tag j: "null", "bool", "num" (d: digits of a non-negative integer written *)
(* without fraction or exponent, <<>> otherwise), "str" (s: code points),    *)
(* "arr" (a), "obj" (f: <<key, value>> pairs in order).                      *)
EXTENDS Naturals, Sequences
Bad == [ok |-> FALSE, v |-> [j |-> "null"], i |-> 0]
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

(* ---- UTF-8 ---------------------------------------------------------------*)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
RECURSIVE Utf8(_, _, _)
Utf8(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, w |-> acc]
  ELSE LET x == b[i]
           No == [ok |-> FALSE, w |-> <<>>]
       IN IF x < 128 THEN Utf8(b, i + 1, Append(acc, x))
          ELSE IF x >= 194 /\ x < 224 /\ Cont(b, i + 1) THEN Utf8(b, i + 2, Append(acc, (x - 192) * 64 + (b[i + 1] - 128)))
          ELSE IF x >= 224 /\ x < 240 /\ Cont(b, i + 1) /\ Cont(b, i + 2)
          THEN LET ch == (x - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
               IN IF ch >= 2048 /\ (ch < 55296 \/ ch > 57343) THEN Utf8(b, i + 3, Append(acc, ch)) ELSE No
          ELSE IF x >= 240 /\ x < 245 /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
          THEN LET ch == (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
               IN IF ch >= 65536 /\ ch <= 1114111 THEN Utf8(b, i + 4, Append(acc, ch)) ELSE No
          ELSE No

(* ---- grammar -------------------------------------------------------------*)
At(w, i) == IF i <= Len(w) THEN w[i] ELSE 0 - 1
IsDig(ch) == ch >= 48 /\ ch <= 57
Hex(ch) == IF IsDig(ch) THEN ch - 48 ELSE IF ch >= 97 /\ ch <= 102 THEN ch - 87 ELSE IF ch >= 65 /\ ch <= 70 THEN ch - 55 ELSE 16
RECURSIVE Ws(_, _), Digits(_, _), Str(_, _, _), Val(_, _), Elems(_, _, _), Members(_, _, _)
Ws(w, i) == IF At(w, i) \in {32, 9, 10, 13} THEN Ws(w, i + 1) ELSE i
Digits(w, i) == IF IsDig(At(w, i)) THEN Digits(w, i + 1) ELSE i
Hex4(w, i) == IF i + 3 > Len(w) \/ \E k \in i..(i + 3) : Hex(w[k]) = 16 THEN 0 - 1
              ELSE ((Hex(w[i]) * 16 + Hex(w[i + 1])) * 16 + Hex(w[i + 2])) * 16 + Hex(w[i + 3])
EscOf == [x \in {34, 92, 47, 98, 102, 110, 114, 116} |->
            CASE x = 34 -> 34 [] x = 92 -> 92 [] x = 47 -> 47 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] OTHER -> 9]
\* characters of a string after its opening quote
Str(w, i, acc) ==
  LET ch == At(w, i)
  IN IF ch = 34 THEN Good([j |-> "str", s |-> acc], i + 1)
     ELSE IF ch < 32 THEN Bad      \* end of text or control character
     ELSE IF ch # 92 THEN Str(w, i + 1, Append(acc, ch))
     ELSE LET e == At(w, i + 1)
          IN IF e \in DOMAIN EscOf THEN Str(w, i + 2, Append(acc, EscOf[e]))
             ELSE IF e # 117 THEN Bad
             ELSE LET h == Hex4(w, i + 2)
                  IN IF h < 0 THEN Bad
                     ELSE IF h < 55296 \/ h > 57343 THEN Str(w, i + 6, Append(acc, h))
                     ELSE IF h > 56319 \/ At(w, i + 6) # 92 \/ At(w, i + 7) # 117 THEN Bad
                     ELSE LET l == Hex4(w, i + 8)
                          IN IF l < 56320 \/ l > 57343 THEN Bad
                             ELSE Str(w, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + (l - 56320)))
Num(w, i) ==
  LET neg == At(w, i) = 45
      a == IF neg THEN i + 1 ELSE i
      b == Digits(w, a)
      frac == At(w, b) = 46
      c == IF frac THEN Digits(w, b + 1) ELSE b
      ex == At(w, c) \in {69, 101}
      d0 == IF ex THEN IF At(w, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 ELSE c
      d == IF ex THEN Digits(w, d0) ELSE c
  IN IF b = a \/ (w[a] = 48 /\ b > a + 1) \/ (frac /\ c = b + 1) \/ (ex /\ d = d0) THEN Bad
     ELSE Good([j |-> "num", d |-> IF neg \/ frac \/ ex THEN <<>> ELSE SubSeq(w, a, b - 1)], d)
Word(w, i, q, v) == IF i + Len(q) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(q) - 1) = q THEN Good(v, i + Len(q)) ELSE Bad
Val(w, i) ==
  LET ch == At(w, i)
  IN CASE ch = 34 -> Str(w, i + 1, <<>>)
       [] ch = 123 -> LET k == Ws(w, i + 1) IN IF At(w, k) = 125 THEN Good([j |-> "obj", f |-> <<>>], k + 1) ELSE Members(w, k, <<>>)
       [] ch = 91 -> LET k == Ws(w, i + 1) IN IF At(w, k) = 93 THEN Good([j |-> "arr", a |-> <<>>], k + 1) ELSE Elems(w, k, <<>>)
       [] ch = 116 -> Word(w, i, <<116, 114, 117, 101>>, [j |-> "bool"])
       [] ch = 102 -> Word(w, i, <<102, 97, 108, 115, 101>>, [j |-> "bool"])
       [] ch = 110 -> Word(w, i, <<110, 117, 108, 108>>, [j |-> "null"])
       [] OTHER -> Num(w, i)
Elems(w, i, acc) ==
  LET x == Val(w, i)
  IN IF ~x.ok THEN Bad
     ELSE LET k == Ws(w, x.i)  n == Append(acc, x.v)
          IN IF At(w, k) = 93 THEN Good([j |-> "arr", a |-> n], k + 1)
             ELSE IF At(w, k) = 44 THEN Elems(w, Ws(w, k + 1), n) ELSE Bad
Members(w, i, acc) ==
  IF At(w, i) # 34 THEN Bad
  ELSE LET key == Str(w, i + 1, <<>>)
       IN IF ~key.ok THEN Bad
          ELSE LET k == Ws(w, key.i)
               IN IF At(w, k) # 58 THEN Bad
                  ELSE LET x == Val(w, Ws(w, k + 1))
                       IN IF ~x.ok THEN Bad
                          ELSE LET m == Ws(w, x.i)  n == Append(acc, <<key.v.s, x.v>>)
                               IN IF At(w, m) = 125 THEN Good([j |-> "obj", f |-> n], m + 1)
                                  ELSE IF At(w, m) = 44 THEN Members(w, Ws(w, m + 1), n) ELSE Bad
\* a whole document
Document(w) == LET x == Val(w, Ws(w, 1)) IN IF x.ok /\ Ws(w, x.i) = Len(w) + 1 THEN x ELSE Bad
RECURSIVE Depth(_), DepthMax(_, _, _)
Depth(v) == IF v.j = "arr" THEN 1 + DepthMax(v.a, 1, 0) ELSE IF v.j = "obj" THEN 1 + DepthMax([i \in 1..Len(v.f) |-> v.f[i][2]], 1, 0) ELSE 0
DepthMax(q, i, m) == IF i > Len(q) THEN m ELSE LET d == Depth(q[i]) IN DepthMax(q, i + 1, IF d > m THEN d ELSE m)
=============================================================================
