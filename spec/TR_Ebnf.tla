------------------------------ MODULE TR_Ebnf ------------------------------
(* C05 (want "lang"), C06 ("num"), C19 ("e2e"): what the tool built from a  *)
(* grammar syntax tree, against the meaning of the text.                    *)
EXTENDS Ebnf, TraceKit, TraceTree
VARIABLES c, done
Want == IOEnv.TR_WANT
MapOf(q, key(_), val(_)) == [x \in {key(q[i]) : i \in 1..Len(q)} |-> val(q[CHOOSE i \in 1..Len(q) : key(q[i]) = x])]
Named(q) == SelectSeq(q, LAMBDA x : x.nm # "")

\* ---- C05
LangJudge(k) ==
  LET v == Trace[k].obs.v
      g == Trace[k].case.rules
      D == Defs(g)
      named == Named(v.nts)
      tid == MapOf(v.ts, LAMBDA x : x.id, LAMBDA x : x.nm)
      nid == MapOf(named, LAMBDA x : x.id, LAMBDA x : x.nm)
      P == NamedP(Range(v.prods), tid, nid)
  IN Why(<< <<v.res = "ok", "the tool failed on a well-formed grammar">>,
            <<v.res = "ok" => {named[i].nm : i \in 1..Len(named)} = DOMAIN D, "a helper is named, or a rule is not">> >>)
     \o (IF v.res = "ok" /\ {named[i].nm : i \in 1..Len(named)} = DOMAIN D
         THEN LangBad(D, P, Trace[k].case.k, Trace[k].case.ks) ELSE "")

\* ---- C06
Bs == 92  Sl == 47
RECURSIVE Unslash(_)
Unslash(q) == IF q = <<>> THEN <<>>
              ELSE IF Len(q) >= 2 /\ q[1] = Bs /\ q[2] = Sl THEN <<Sl>> \o Unslash(SubSeq(q, 3, Len(q)))
              ELSE <<q[1]>> \o Unslash(Tail(q))
Body(re) == Unslash(SubSeq(re, 2, Len(re) - 1))
\* ^(body), ^(?:body), \A(body) or \A(?:body): anchored, grouped
Pattern(re) == {a \o g \o Body(re) \o <<41>> : a \in {<<94>>, <<92, 65>>}, g \in {<<40>>, <<40, 63, 58>>}}
\* n records of literals come first (their patterns are C21's)
DataBad(data, T, n, ft) ==
  IF Len(data) # n + Len(T) THEN "number of lexical records"
  ELSE Why(<< <<\A i \in 1..n : data[i].ty = ft + i - 1, "lexical record id of a literal">>,
              <<\A i \in 1..Len(T) : data[n + i].ty = ft + n + i - 1 /\ data[n + i].nm = T[i].n, "lexical record id or name">>,
              <<\A i \in 1..Len(T) : data[n + i].re \in Pattern(T[i].re), "lexical record pattern">> >>)
\* the stand-alone collector: the records it was given, then one for each name they do not have
Fresh(T, pre) == SelectSeq(T, LAMBDA d : ~\E i \in 1..Len(pre) : pre[i].nm = d.n)
LrBad(lr, T, pre, ft) ==
  LET U == Fresh(T, pre)
  IN IF Len(lr.data) # Len(pre) + Len(U) THEN "number of lexical records"
     ELSE Why(<< <<\A i \in 1..Len(pre) : lr.data[i].ty = pre[i].ty /\ lr.data[i].nm = pre[i].nm, "a given lexical record changed">>,
                 <<DataBad(SubSeq(lr.data, Len(pre) + 1, Len(lr.data)), U, 0, ft) = "", DataBad(SubSeq(lr.data, Len(pre) + 1, Len(lr.data)), U, 0, ft)>>,
                 <<lr.next = ft + Len(U), "next free number">>,
                 <<Len(U) < Len(T) => lr.rep, "a repeated token is not reported">> >>)
NumJudge(k) ==
  LET v == Trace[k].obs.v
      g == Trace[k].case.rules
      ft == Trace[k].case.ft  fr == Trace[k].case.fr
      T == TokDefs(g)  R == RuleDefs(g)
      named == Named(v.nts)
      lr == v.lr
      lits == Range(GrammarLits(g))
      n == Cardinality(lits)
      litIds == {x.id : x \in {y \in Range(v.ts) : y.nm \in lits}}
  IN IF v.res # "ok" THEN "the tool failed on a well-formed grammar"
     ELSE IF lr.res # "ok" THEN "the lexical rule collector failed on a well-formed grammar"
     ELSE Why(<<
       <<{<<x.id, x.nm>> : x \in {y \in Range(v.ts) : y.nm \notin lits}} =
            {<<0, "_START">>, <<1, "_STOP">>} \cup {<<ft + n + i - 1, T[i].n>> : i \in 1..Len(T)}, "token numbering">>,
       <<{x.nm : x \in Range(v.ts)} \cap lits = lits /\ litIds = ft..(ft + n - 1)
         /\ Len(v.ts) = 2 + n + Len(T), "literal numbering">>,
       <<{<<x.id, x.nm>> : x \in Range(named)} = {<<fr + i - 1, R[i].n>> : i \in 1..Len(R)}, "rule numbering">>,
       <<\A x \in Range(named) : x.by = <<x.id>>, "rule lookup by name">>,
       <<NtsOf(Range(v.prods)) \subseteq {x.id : x \in Range(v.nts)}, "a production uses an unregistered nonterminal">>,
       \* helpers have numbers of their own: none of their productions adds to what a rule derives
       <<Trace[k].case.lang => LangBad(Defs(g), NamedP(Range(v.prods), MapOf(v.ts, LAMBDA x : x.id, LAMBDA x : x.nm), MapOf(named, LAMBDA x : x.id, LAMBDA x : x.nm)), 2, Trace[k].case.ks) = "",
         "a helper has the number of a rule">>,
       <<v.tcnt = ft + n + Len(T) /\ v.rcnt = fr + Len(R), "next free number">>,
       <<DataBad(v.data, T, n, ft) = "", DataBad(v.data, T, n, ft)>>,
       <<HasDup(LRules(g)) \/ HasDup(PRules(g)) => v.rep2, "a repeated definition is not reported">>,
       <<LrBad(lr, T, Trace[k].case.pre, ft) = "", LrBad(lr, T, Trace[k].case.pre, ft) \o " (stand-alone collector)">>,
       <<HasDup(LRules(g)) => lr.rep, "a repeated token is not reported (stand-alone collector)">> >>)

\* ---- C19
RECURSIVE LeavesOf(_), LeavesSeq(_, _)
LeavesOf(t) == IF t.k # "R" THEN <<t>> ELSE LeavesSeq(t.ch, 1)
LeavesSeq(ch, i) == IF i > Len(ch) THEN <<>> ELSE LeavesOf(ch[i]) \o LeavesSeq(ch, i + 1)
SymOf(t) == IF t.k = "R" THEN Atom(t.nm) ELSE IF t.k = "T" THEN t.t.nm ELSE "!error"
RECURSIVE TreeOK(_, _, _)
TreeOK(t, D, g) == t.k = "R" =>
   /\ t.nm \in DOMAIN D /\ t.ix = RuleId(g, t.nm)
   /\ BodyMember(D, t.nm, [i \in 1..Len(t.ch) |-> SymOf(t.ch[i])])
   /\ \A i \in 1..Len(t.ch) : TreeOK(t.ch[i], D, g)
OneBad(o, w, D, g, st) ==
  LET F == EFacts(D, w)[st][0]
      silent == o.res = "ok" /\ ~o.rep
      tree == Unflat(o.tree)
  IN IF Len(w) \in F
     THEN Why(<< <<o.res = "ok", "a sentence was refused">>,
                 <<o.res = "ok" => ~o.rep /\ ~o.trep, "a sentence was not accepted silently">>,
                 <<silent => tree.nm = st /\ TreeOK(tree, D, g), "a node's children are not a word of its rule">>,
                 <<silent => LET q == LeavesOf(tree)
                             IN Len(q) = Len(w) /\ \A i \in 1..Len(w) : q[i].k = "T" /\ q[i].t.nm = w[i] /\ q[i].t.ti = i - 1
                                                                      /\ q[i].t.tx = "t" \o ToString(i - 1),
                   "the leaves are not the input">> >>)
     ELSE IF F = {}
     THEN IF silent THEN "accepted a text without any prefix in the language" ELSE ""
     ELSE \* some prefix is a sentence: silent acceptance must return a tree of such a prefix
          IF silent /\ ~(TreeOK(tree, D, g)) THEN "a node's children are not a word of its rule" ELSE ""
\* in scope: the specification's own rewriting is LL(1), or building the table reported nothing
InScope(g) ==
  LET P == Built(g).P
      N == {i - 1 : i \in 1..Len(RuleDefs(g))} \cup NtsOf(P)
      nul == Nullable(P)
      F == First(P, N)
  IN LL1F(Cands(P, nul, F, FollowOf(P, N, nul, F)))
RECURSIVE FirstNonEmpty(_)
FirstNonEmpty(q) == IF q = <<>> THEN "" ELSE IF Head(q) # "" THEN Head(q) ELSE FirstNonEmpty(Tail(q))
E2eJudge(k) ==
  LET v == Trace[k].obs.v
      g == Trace[k].case.rules
      D == Defs(g)
      st == RuleDefs(g)[1].n
      spoke == \E i \in 1..Len(v.outs) : v.outs[i].trep
  IN IF Trace[k].obs.r = "ok" /\ v.res = "ok" /\ spoke /\ ~InScope(g) THEN (IF PrintT(<<"NA", k>>) THEN "" ELSE "")
     ELSE IF Trace[k].obs.r # "ok" THEN "the tool chain ended with " \o Trace[k].obs.r
     ELSE IF v.res # "ok" THEN "the tool chain failed on a well-formed grammar"
     ELSE IF Len(v.outs) # Len(Trace[k].case.inputs) THEN "missing results"
     ELSE IF spoke THEN "a conflict is reported for an LL(1) grammar"
     ELSE FirstNonEmpty([i \in 1..Len(v.outs) |-> OneBad(v.outs[i], Trace[k].case.inputs[i], D, g, st)])

Judge(k) == IF Want = "e2e" THEN E2eJudge(k)
            ELSE IF Trace[k].obs.r # "ok" THEN "the tool ended with " \o Trace[k].obs.r
            ELSE CASE Want = "lang" -> LangJudge(k) [] OTHER -> NumJudge(k)
TrInit == c \in 1..Len(Trace) /\ done = FALSE
TrNext == ~done /\ done' = Verdict(c, Judge(c)) /\ c' = c
TrSpec == TrInit /\ [][TrNext]_<<c, done>>
=============================================================================
