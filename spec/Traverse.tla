------------------------------ MODULE Traverse ------------------------------
(* Listener walk and visitor traversal of a tree, each as a transition       *)
(* function on a state record; callbacks are appended to log.                *)
EXTENDS Tree
LOCAL INSTANCE SequencesExt
RuleNames == << "rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular" >>
Known(q, i) == q[i].ix \in 0..8
NameOf(q, i) == RuleNames[q[i].ix + 1]

(* ---- walk: a stack of [id, ph, c]; one callback per transition ---------- *)
\* nx: the next node in source order, which is the next child entered
WInit(q, i) == [stk |-> <<[id |-> i, ph |-> "every", c |-> 0]>>, log |-> <<>>, nx |-> i + 1]
WDone(s) == s.stk = <<>>
WTop(s) == s.stk[Len(s.stk)]
WSet(s, f, ev) == [s EXCEPT !.stk[Len(s.stk)] = f, !.log = @ \o ev]
WPop(s, ev) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.log = @ \o ev]
WStep(q, s) ==
  LET f == WTop(s)  i == f.id
  IN IF q[i].k # "R"
     THEN LET nm == IF q[i].k = "T" THEN "terminal" ELSE "errornode"
          IN WPop(s, << <<"enter_" \o nm, i>>, <<"exit_" \o nm, i>> >>)
     ELSE CASE f.ph = "every" -> WSet(s, [f EXCEPT !.ph = "enter"], << <<"enter_every", i>> >>)
            [] f.ph = "enter" -> WSet(s, [f EXCEPT !.ph = "kids"], IF Known(q, i) THEN << <<"enter_" \o NameOf(q, i), i>> >> ELSE <<>>)
            [] f.ph = "kids" ->
                 IF f.c = q[i].n THEN WSet(s, [f EXCEPT !.ph = "exit"], <<>>)
                 ELSE [s EXCEPT !.stk = Append([@ EXCEPT ![Len(@)].c = f.c + 1], [id |-> s.nx, ph |-> "every", c |-> 0]), !.nx = @ + 1]
            [] f.ph = "exit" -> WSet(s, [f EXCEPT !.ph = "last"], IF Known(q, i) THEN << <<"exit_" \o NameOf(q, i), i>> >> ELSE <<>>)
            [] OTHER -> WPop(s, << <<"exit_every", i>> >>)
\* run to the end: at most six steps per node
WRun(q, s0) == FoldLeft(LAMBDA s, i : IF WDone(s) THEN s ELSE WStep(q, s), s0, [i \in 1..(7 * Len(q)) |-> i])
Walk(q) == WRun(q, WInit(q, 1)).log

(* ---- visit: frames [id, c, l, acc] and a control value --------------------- *)
(* A visitor is a record: h (rule handlers overridden: log, then prune or    *)
(* visit the children), l (leaf handlers overridden), fold (concatenating    *)
(* combination and stop test, otherwise last result wins and never stops),   *)
(* prune (rule numbers answered without visiting the children), stop, stopn. *)
Default == <<0>>
VInit(i, as) == [stk |-> <<>>, ctl |-> [m |-> "call", id |-> i, as |-> as], log |-> <<>>]
VDone(s) == s.ctl.m = "end"
StopsAt(v, i, acc) == v.fold /\ (acc[Len(acc)] \in v.stop \/ (i \in v.stopn /\ Len(acc) > 1) \/ -i \in v.stopn)
Combine(v, a, b) == IF v.fold THEN a \o b ELSE b
VRet(s, x, ev) == [s EXCEPT !.ctl = [m |-> "ret", v |-> x], !.log = @ \o ev]
VStep(q, v, s) ==
  IF s.ctl.m = "call"
  THEN LET i == s.ctl.id
           nm == IF s.ctl.as # "" THEN s.ctl.as ELSE IF q[i].k = "R" /\ Known(q, i) THEN NameOf(q, i) ELSE ""
       IN IF q[i].k # "R"
          THEN (IF v.l THEN VRet(s, <<i>>, << <<IF q[i].k = "T" THEN "terminal" ELSE "error", i>> >>) ELSE VRet(s, Default, <<>>))
          ELSE LET ev == IF v.h /\ nm # "" THEN << <<nm, i>> >> ELSE <<>>
               IN IF v.h /\ nm # "" /\ q[i].ix \in v.prune THEN VRet(s, <<i>>, ev)
                  ELSE [stk |-> Append(s.stk, [id |-> i, c |-> 0, l |-> 0, acc |-> Default]), ctl |-> [m |-> "next"], log |-> s.log \o ev]
  ELSE IF s.ctl.m = "ret"
  THEN IF s.stk = <<>> THEN [s EXCEPT !.ctl = [m |-> "end", v |-> s.ctl.v]]
       ELSE [s EXCEPT !.stk[Len(s.stk)].acc = Combine(v, s.stk[Len(s.stk)].acc, s.ctl.v), !.ctl = [m |-> "next"]]
  ELSE \* "next": the next child of the top frame, if any and wanted
       LET f == s.stk[Len(s.stk)]
       IN IF f.c = q[f.id].n \/ StopsAt(v, f.id, f.acc)
          THEN [stk |-> SubSeq(s.stk, 1, Len(s.stk) - 1), ctl |-> [m |-> "ret", v |-> f.acc], log |-> s.log]
          ELSE LET kid == IF f.c = 0 THEN f.id + 1 ELSE EndOf(q, f.l)  \* the child after the last one visited, l
               IN [s EXCEPT !.stk[Len(s.stk)] = [f EXCEPT !.c = f.c + 1, !.l = kid], !.ctl = [m |-> "call", id |-> kid, as |-> ""]]
VRun(q, v, s0) == FoldLeft(LAMBDA s, i : IF VDone(s) THEN s ELSE VStep(q, v, s), s0, [i \in 1..(7 * Len(q) + 7) |-> i])
Visit(q, v, as) == LET s == VRun(q, v, VInit(1, as)) IN [log |-> s.log, res |-> s.ctl.v]
=============================================================================
