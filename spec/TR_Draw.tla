------------------------------- MODULE TR_Draw ------------------------------
(* C17: what a browser reads from the drawn page is the given tree.          *)
(* C22: a call that returns has written the whole page.                      *)
EXTENDS TraceKit, Page
VARIABLES c, done
O(k) == Trace[k].obs
\* what the tree looks like to a reader of the page; leaves of either kind look alike
Shown(q) == [i \in 1..Len(q) |-> IF q[i].k = "R" THEN q[i] ELSE [k |-> "T", nm |-> q[i].nm, tx |-> q[i].tx]]
PageBad(p, q, t) ==
  Why(<< <<p.res # "nofile", "no page is written">>,
         <<~p.ran, "tree content is executed as code">>,
         <<p.res = "nofile" \/ TShow(p.title, 1, <<>>) = TShow(t, 1, <<>>), "the page's title is not the given name">>,
         <<p.res # "error" /\ p.res # "noscript", "the page's script does not load">>,
         <<p.res = "ok", "the page's script has no tree">>,
         <<p.tree = Shown(q), "the page's tree is not the given tree">>,
         <<p.same, "the page's drawings show different trees">> >>)
FileBad(v, k) ==
  Why(<< <<v.refok /\ v.full > 0, "drawing fails although nothing is wrong">>,
         <<v.page.tail, "the page written without any fault is not complete">>,
         <<v.again, "drawing the same tree twice gives different pages">>,
         <<~v.ok \/ v.same, "drawing returns normally but the file does not hold the whole page">>,
         <<v.ok \/ k.kind \notin {"file", "link", "dangling"} \/ k.script # <<>>, "drawing fails although nothing is wrong">> >>)
Judged ==
  IF O(c).r # "ok" THEN "drawing ended with " \o O(c).r
  ELSE IF IOEnv.TR_WANT = "page" THEN
    IF ~O(c).v.ok THEN "drawing fails" ELSE PageBad(O(c).v.page, Trace[c].case.tree, Trace[c].case.title)
  ELSE LET f == FileBad(O(c).v, Trace[c].case) IN IF f # "" THEN f ELSE PageBad(O(c).v.page, Trace[c].case.tree, Trace[c].case.title)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
