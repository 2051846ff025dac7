------------------------------ MODULE TR_Serde ------------------------------
(* C16: recorded loads of byte streams, from a string and from readers.      *)
EXTENDS SerdeAst, TraceKit
VARIABLES c, done
O(k) == Trace[k].obs
Judged ==
  LET b == Trace[c].case.bytes
      u == Utf8(b, 1, <<>>)
      d == IF u.ok THEN Document(u.w) ELSE Bad
      e == IF d.ok THEN LoadRule(d.v) ELSE Fail
      deep == d.ok /\ Depth(d.v) >= 126            \* beyond the reader's nesting limit: an error or the tree
      v == O(c).v
      Want(o) == IF e.ok THEN (o.r = "ok" /\ o.tree = e.t) \/ (deep /\ o.r = "err") ELSE o.r = "err"
  IN IF O(c).r # "ok" THEN "loading ended with " \o O(c).r
     ELSE IF e.ok /\ ~PrintT(<<"LOADED", c>>) THEN ""
     ELSE Why(<< <<v.str.r # "panic" /\ v.rd.r # "panic" /\ v.rf.r # "panic", "loading panics">>,
                 <<u.ok = (v.str.r # "notext"), "driver: text">>,
                 <<~u.ok \/ Want(v.str), IF e.ok THEN "a well-formed document is not loaded as written from a string" ELSE "a malformed document is loaded from a string">>,
                 <<Want(v.rd), IF e.ok THEN "a well-formed document is not loaded as written from a reader" ELSE "a malformed document is loaded from a reader">>,
                 <<~u.ok \/ (v.str.r = v.rd.r /\ v.str.tree = v.rd.tree), "string and reader disagree">>,
                 <<v.rf.r \in {"none", "err"}, "a failing reader gives a tree">> >>)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
