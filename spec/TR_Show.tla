------------------------------ MODULE TR_Show -------------------------------
(* C18: printed trees, tokens and grammars.                                  *)
EXTENDS Tree, TraceKit
VARIABLES c, done
Want == IOEnv.TR_WANT
O(k) == Trace[k].obs
LOCAL INSTANCE SequencesExt
\* printed form of the tree, its preorder list read backwards with a stack of finished forms
RECURSIVE JoinDown(_, _, _)
JoinDown(s, i, n) == IF n = 0 THEN "" ELSE s[i] \o " " \o JoinDown(s, i - 1, n - 1)
ShowNode(x, s) ==
  IF x.k # "R" THEN Append(s, x.t.nm)
  ELSE Append(SubSeq(s, 1, Len(s) - x.n), x.nm \o " (" \o JoinDown(s, Len(s), x.n) \o ")")
ShowTree(q) == FoldRight(ShowNode, q, <<>>)[1]
ShowPos(l, p) == "line: " \o l \o ", position: " \o p
ShowTok(t) == "[@" \o t.ti \o ", " \o t.cs \o ":" \o t.ce \o "='" \o t.tx \o "', <" \o t.nm \o ">, <" \o t.ty \o ">, start: <"
              \o ShowPos(t.sl, t.sc) \o ">, stop: <" \o ShowPos(t.el, t.ec) \o ">]"
TreeBad(k) ==
  LET q == Trace[k].case.tree  v == O(k).v  ls == Leaves(q, 1)
  IN Why(<< <<v.s = ShowTree(q), "the printed tree is not the tree">>, <<v.sa = ShowTree(q), "the printed node is not the tree">>,
            <<Len(v.toks) = Len(ls), "driver: leaves">>,
            <<\A i \in 1..Len(ls) : v.toks[i].s = ShowTok(q[ls[i]].t), "a printed token does not show the token">>,
            <<\A i \in 1..Len(ls) : v.toks[i].p = ShowPos(q[ls[i]].t.sl, q[ls[i]].t.sc), "a printed position is wrong">>,
            <<\A i \in 1..Len(ls) : v.toks[i].leaf = q[ls[i]].t.nm /\ v.toks[i].text = q[ls[i]].t.tx, "a printed leaf is wrong">> >>)
NameIn(ns, i) == LET x == {y \in ns : y.id = i} IN IF x = {} THEN "" ELSE (CHOOSE y \in x : TRUE).nm
SymName(g, s) ==
  IF s[1] = "T" THEN NameIn({g.ts[j] : j \in 1..Len(g.ts)}, s[2])
  ELSE LET n == NameIn({g.nts[j] : j \in 1..Len(g.nts)}, s[2]) IN IF n = "" THEN ToString(s[2]) ELSE n
RECURSIVE Rhs(_, _, _)
Rhs(g, r, i) == IF i > Len(r) THEN "" ELSE " " \o SymName(g, r[i]) \o Rhs(g, r, i + 1)
Line(g, p) == SymName(g, <<"N", p.l>>) \o " ->" \o Rhs(g, p.r, 1) \o ";"
GramBad(k) ==
  LET g == Trace[k].case  ps == {g.prods[i] : i \in 1..Len(g.prods)}
      ls == O(k).v.lines   \* text cut at line feeds
      Cnt(x) == Cardinality({i \in 1..Len(ls) : ls[i] = x})
  IN Why(<< <<Len(ls) = Cardinality(ps) + 1 /\ ls[Len(ls)] = "", "not one line per production">>,
            <<\A p \in ps : Cnt(Line(g, p)) = Cardinality({x \in ps : Line(g, x) = Line(g, p)}), "a production is not printed as its line">> >>)
Judged == IF O(c).r # "ok" THEN "printing ended with " \o O(c).r ELSE IF Want = "tree" THEN TreeBad(c) ELSE GramBad(c)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
