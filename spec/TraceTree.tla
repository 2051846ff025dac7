----------------------------- MODULE TraceTree -----------------------------
(* Trees travel as preorder lists (JSON nesting is limited): a rule node     *)
(* carries its number of children in n.  Read backwards with a stack of the  *)
(* finished trees (deep trees must not mean deep recursion).                 *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt
PushNode(x, s) ==
  IF x.k # "R" THEN Append(s, x)
  ELSE Append(SubSeq(s, 1, Len(s) - x.n),
              [k |-> "R", ix |-> x.ix, nm |-> x.nm, ch |-> [i \in 1..x.n |-> s[Len(s) + 1 - i]]])
Unflat(q) == FoldRight(PushNode, q, <<>>)[1]
=============================================================================
