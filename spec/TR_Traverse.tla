---------------------------- MODULE TR_Traverse -----------------------------
(* C12 (want "walk"), C13 (want "visit"): recorded callbacks and results.    *)
EXTENDS Traverse, TraceKit
VARIABLES c, done
Want == IOEnv.TR_WANT
Tr(k) == Trace[k].case.tree
O(k) == Trace[k].obs
SetOf(x) == {x[i] : i \in 1..Len(x)}
Vis(h, l, f, p, st, sn) == [h |-> h, l |-> l, fold |-> f, prune |-> p, stop |-> st, stopn |-> sn]
Prune(k) == SetOf(Trace[k].case.prune)
FullV(k) == Vis(TRUE, TRUE, TRUE, Prune(k), SetOf(Trace[k].case.stop), SetOf(Trace[k].case.stopn))
FoldV(k) == [FullV(k) EXCEPT !.h = FALSE, !.prune = {}]
One(what, q, v, as, o) ==
  LET e == Visit(q, v, as)
  IN IF o.r # "ok" THEN what \o " panics"
     ELSE IF o.ev # e.log THEN what \o " calls other handlers than " \o ToString(e.log) \o ": " \o ToString(o.ev)
     ELSE IF o.res # e.res THEN what \o " returns " \o ToString(o.res) \o ", not " \o ToString(e.res)
     ELSE ""
Fam(k, fam, o) ==
  LET q == Tr(k)
      a1 == One(fam \o " visitor with leaf handlers", q, Vis(FALSE, TRUE, FALSE, {}, {}, {}), "", o.leaf)
      a2 == One(fam \o " visitor with all handlers", q, Vis(TRUE, TRUE, FALSE, Prune(k), {}, {}), "", o.rec)
      a3 == One(fam \o " visitor with handlers, folding and stop test", q, FullV(k), "", o.full)
      a4 == One(fam \o " visitor with folding and stop test", q, FoldV(k), "", o.fold)
      a5 == One(fam \o " default visitor", q, Vis(FALSE, FALSE, FALSE, {}, {}, {}), "", o.bare)
      Typed(i) == One(fam \o " visitor via accept as " \o o.typed[i].nm, q, FullV(k), o.typed[i].nm, o.typed[i].o)
      bad == {i \in 1..Len(o.typed) : Typed(i) # ""}
  IN IF a1 # "" THEN a1 ELSE IF a2 # "" THEN a2 ELSE IF a3 # "" THEN a3 ELSE IF a4 # "" THEN a4 ELSE IF a5 # "" THEN a5
     ELSE IF bad # {} THEN Typed(CHOOSE i \in bad : TRUE)
     ELSE IF {o.typed[i].nm : i \in 1..Len(o.typed)} # SetOf(RuleNames) THEN "driver: typed nodes" ELSE ""
WalkBad(k) ==
  LET v == O(k).v  q == Tr(k)  w == Walk(q)
  IN Why(<< <<v.walk.r = "ok", "the walk panics">>,
            <<v.walk.ev = w, "the walk reports " \o ToString(v.walk.ev) \o ", not " \o ToString(w)>>,
            <<v.silent, "the walk of a listener without overrides panics">>,
            <<\A i \in 1..Len(v.typed) : v.typed[i][2] = << <<"enter_" \o v.typed[i][1], 1>>, <<"exit_" \o v.typed[i][1], 1>> >>,
              "enter/exit of a typed node fires another event">>,
            <<{v.typed[i][1] : i \in 1..Len(v.typed)} = SetOf(RuleNames), "driver: typed nodes">> >>)
Judged == IF O(c).r # "ok" THEN "traversal ended with " \o O(c).r
          ELSE IF ~WellFormed(Tr(c)) THEN "driver: tree"
          ELSE IF Want = "walk" THEN WalkBad(c)
          ELSE LET a == Fam(c, "hand-written", O(c).v.old) IN IF a # "" THEN a ELSE Fam(c, "bootstrapped", O(c).v.v1)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
