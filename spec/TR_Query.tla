------------------------------ MODULE TR_Query ------------------------------
(* C14 (want "query": child queries and accessors; want "views": the typed   *)
(* trees the bootstrapped parser hands out), C15 (want "span").              *)
EXTENDS TreeQuery, TraceKit
VARIABLES c, done
Want == IOEnv.TR_WANT
O(k) == Trace[k].obs
RECURSIVE NthAll(_, _, _)
NthAll(s, i, n) == IF i = n THEN <<>> ELSE <<Nth(s, i)>> \o NthAll(s, i + 1, n)
\* the harness asks for every index up to the number of children and one more, then for 7 far beyond
Asked(s, m) == NthAll(s, 0, m + 2) \o [i \in 1..7 |-> <<>>]
QueryBad(k) ==
  LET q == Trace[k].case.tree  v == O(k).v  m == Len(Kids(q, 1))
      Fam(fam, o) == \A i \in 1..Len(Acc) : o[i] = <<Acc[i][1], Acc[i][2], Denotes(q, 1, fam, Acc[i])>>
      Wrong(fam, o) == Acc[CHOOSE i \in 1..Len(Acc) : o[i] # <<Acc[i][1], Acc[i][2], Denotes(q, 1, fam, Acc[i])>>]
  IN Why(<< <<v.count = m /\ v.clen = m, "wrong number of children">>,
            <<v.ix = q[1].ix, "wrong rule number">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.ts = Select(q, 1, "T", x.ty), "wrong terminals of a number">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.es = Select(q, 1, "E", x.ty), "wrong error leaves of a number">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.rs = Select(q, 1, "R", x.ty), "wrong sub-rules of a number">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.t = Asked(Select(q, 1, "T", x.ty), m), "wrong i-th terminal">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.e = Asked(Select(q, 1, "E", x.ty), m), "wrong i-th error leaf">>,
            <<\A i \in 1..Len(v.q) : LET x == v.q[i] IN x.r = Asked(Select(q, 1, "R", x.ty), m), "wrong i-th sub-rule">>,
            <<Len(v.old) = Len(Acc) /\ Len(v.v1) = Len(Acc), "driver: accessors">>,
            <<Fam("old", v.old), IF Fam("old", v.old) THEN "" ELSE "wrong typed access, hand-written front end: " \o ToString(Wrong("old", v.old))>>,
            <<Fam("v1", v.v1), IF Fam("v1", v.v1) THEN "" ELSE "wrong typed access, bootstrapped front end: " \o ToString(Wrong("v1", v.v1))>> >>)

\* typed trees handed out by the bootstrapped parser
AccOf(owner, nm) == Acc[CHOOSE i \in 1..Len(Acc) : Acc[i][1] = owner /\ Acc[i][2] = nm]
D(q, i, owner, nm) == Denotes(q, i, "v1", AccOf(owner, nm))
Lf(q, s) == IF s = <<>> THEN <<>> ELSE <<q[s[1]].t.nm, q[s[1]].t.tx>>
LfOf(q, i, owner, nm) == Lf(q, D(q, i, owner, nm))
NAlts(q, i) == LET b == D(q, i, "parser_rule", "block") IN IF b = <<>> THEN 0 ELSE Len(D(q, b[1], "block", "alternative_list"))
RegOf(q, i) == LET b == D(q, i, "lexer_rule", "regular") IN IF b = <<>> THEN <<>> ELSE LfOf(q, b[1], "regular", "regular_literal")
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
View(q, e) ==
  CASE e = 0 -> [parser_rules |-> Map(D(q, 1, "rule_list", "parser_rule_list"),
                    LAMBDA i : <<LfOf(q, i, "parser_rule", "rule_ref"), LfOf(q, i, "parser_rule", "colon"), LfOf(q, i, "parser_rule", "semi"), NAlts(q, i)>>),
                 lexer_rules |-> Map(D(q, 1, "rule_list", "lexer_rule_list"),
                    LAMBDA i : <<LfOf(q, i, "lexer_rule", "token_ref"), LfOf(q, i, "lexer_rule", "colon"), LfOf(q, i, "lexer_rule", "semi"), RegOf(q, i)>>)]
    [] e = 1 -> [rule_ref |-> LfOf(q, 1, "parser_rule", "rule_ref"), colon |-> LfOf(q, 1, "parser_rule", "colon"),
                 semi |-> LfOf(q, 1, "parser_rule", "semi"), nalt |-> NAlts(q, 1)]
    [] e = 2 -> [nalt |-> Len(D(q, 1, "block", "alternative_list")), nor |-> Len(D(q, 1, "block", "or_list"))]
    [] e = 3 -> [nel |-> Len(D(q, 1, "alternative", "element_list")), eps |-> D(q, 1, "alternative", "epsilon") # <<>>]
    [] e = 4 -> [eps |-> LfOf(q, 1, "epsilon", "epsilon")]
    [] e = 5 -> [token_ref |-> LfOf(q, 1, "element", "token_ref"), rule_ref |-> LfOf(q, 1, "element", "rule_ref"),
                 string_literal |-> LfOf(q, 1, "element", "string_literal"), lparen |-> LfOf(q, 1, "element", "lparen"),
                 rparen |-> LfOf(q, 1, "element", "rparen"), block |-> D(q, 1, "element", "block") # <<>>,
                 suffix |-> D(q, 1, "element", "ebnf_suffix") # <<>>]
    [] e = 6 -> [star |-> LfOf(q, 1, "ebnf_suffix", "star"), plus |-> LfOf(q, 1, "ebnf_suffix", "plus"), nq |-> Len(D(q, 1, "ebnf_suffix", "question_list"))]
    [] e = 7 -> [token_ref |-> LfOf(q, 1, "lexer_rule", "token_ref"), colon |-> LfOf(q, 1, "lexer_rule", "colon"),
                 semi |-> LfOf(q, 1, "lexer_rule", "semi"), regular |-> RegOf(q, 1)]
    [] OTHER -> [regular_literal |-> LfOf(q, 1, "regular", "regular_literal")]
ViewsBad(k) ==
  LET v == O(k).v
  IN IF v.res # "ok" THEN "" \* reading the text is C20's business
     ELSE IF v.typed # View(v.tree, Trace[k].case.entry)
     THEN "typed views " \o ToString(v.typed) \o " of the bootstrapped parser's tree, not " \o ToString(View(v.tree, Trace[k].case.entry)) ELSE ""

SpanBad(k) ==
  LET q == Trace[k].case.tree  v == O(k).v
      Tk(s) == IF s = <<>> THEN <<>> ELSE <<q[s[1]].t>>
      Bad(x) == Why(<< <<x.start = Tk(StartLeaf(q, x.id)), "start token">>, <<x.stop = Tk(StopLeaf(q, x.id)), "stop token">>,
                       <<~NoErrors(q, x.id) \/ x.ft = StartLeaf(q, x.id), "first terminal">>,
                       <<~NoErrors(q, x.id) \/ x.lt = StopLeaf(q, x.id), "last terminal">>,
                       <<x.text = <<SourceText(q, x.id, Trace[k].case.input)>>, "source text">> >>)
  IN IF {v.nodes[i].id : i \in 1..Len(v.nodes)} # Rules(q) THEN "driver: nodes"
     ELSE LET b == {i \in 1..Len(v.nodes) : Bad(v.nodes[i]) # ""}
          IN IF b = {} THEN "" ELSE LET i == CHOOSE i \in b : TRUE IN "wrong " \o Bad(v.nodes[i]) \o " of node " \o ToString(v.nodes[i].id)
Judged == IF O(c).r # "ok" THEN "query ended with " \o O(c).r
          ELSE IF Want = "query" THEN QueryBad(c) ELSE IF Want = "views" THEN ViewsBad(c) ELSE SpanBad(c)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
Finish == ~done /\ done' = Verdict(c, Judged) /\ UNCHANGED c
TrSpec == TrInit /\ [][Finish]_<<c, done>>
=============================================================================
