------------------------------ MODULE SerdeAst ------------------------------
(* Loading a syntax tree from a JSON document.  The loader is a machine over *)
(* the value: it reads members and either produces the tree or fails.        *)
EXTENDS JsonText
KChildren == <<99, 104, 105, 108, 100, 114, 101, 110>>
KRuleIndex == <<114, 117, 108, 101, 95, 105, 110, 100, 101, 120>>
KRuleName == <<114, 117, 108, 101, 95, 110, 97, 109, 101>>
KTokenType == <<116, 111, 107, 101, 110, 95, 116, 121, 112, 101>>
KTokenName == <<116, 111, 107, 101, 110, 95, 110, 97, 109, 101>>
KText == <<116, 101, 120, 116>>
NoText == <<60, 110, 111, 32, 116, 101, 120, 116, 62>>
Null == [j |-> "null"]
\* the last member with that key, null when there is none
RECURSIVE GetFrom(_, _, _)
GetFrom(f, key, i) == IF i = 0 THEN Null ELSE IF f[i][1] = key THEN f[i][2] ELSE GetFrom(f, key, i - 1)
Get(v, key) == IF v.j = "obj" THEN GetFrom(v.f, key, Len(v.f)) ELSE Null
\* unsigned 64 bit
MaxU64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
IsNat(v) == v.j = "num" /\ v.d # <<>> /\ (Len(v.d) < 20 \/ (Len(v.d) = 20 /\ LexLe(v.d, MaxU64, 1)))
Fail == [ok |-> FALSE, t |-> <<>>]
Got(t) == [ok |-> TRUE, t |-> t]
RECURSIVE LoadRule(_), LoadKids(_, _, _)
LoadLeaf(v) ==
  LET ty == Get(v, KTokenType)  nm == Get(v, KTokenName)  tx == Get(v, KText)
  IN IF IsNat(ty) /\ nm.j = "str" THEN Got(<<[k |-> "T", ty |-> ty.d, nm |-> nm.s, tx |-> IF tx.j = "str" THEN tx.s ELSE NoText]>>) ELSE Fail
LoadRule(v) ==
  LET ch == Get(v, KChildren)  ix == Get(v, KRuleIndex)  nm == Get(v, KRuleName)
  IN IF ch.j # "arr" \/ ~IsNat(ix) \/ nm.j # "str" THEN Fail
     ELSE LET r == LoadKids(ch.a, 1, <<>>)
          IN IF r.ok THEN Got(<<[k |-> "R", ix |-> ix.d, nm |-> nm.s, n |-> Len(ch.a)]>> \o r.t) ELSE Fail
\* preorder list of the children
LoadKids(a, i, acc) ==
  IF i > Len(a) THEN Got(acc)
  ELSE LET r == IF Get(a[i], KChildren).j = "null" THEN LoadLeaf(a[i]) ELSE LoadRule(a[i])
       IN IF r.ok THEN LoadKids(a, i + 1, acc \o r.t) ELSE Fail
LoadText(w) == LET d == Document(w) IN IF d.ok THEN LoadRule(d.v) ELSE Fail
=============================================================================
