------------------------------ MODULE TR_Front -----------------------------
(* C23: recorded readings of texts by a generated lexer together with the   *)
(* parser built from the same grammar tree.                                 *)
EXTENDS Ebnf, Front, TraceKit
VARIABLES c, done, steps
PathView == <<c, steps, done>>
G_(k) == Trace[k].case.rules
O(k) == Trace[k].obs
\* pattern of a token name, in the order the specification numbers tokens
Names(g) == GrammarLits(g) \o [i \in 1..Len(TokDefs(g)) |-> TokDefs(g)[i].n]
Pats(k) == LET q == Trace[k].case.pats  ns == Names(G_(k)) IN [i \in 1..Len(ns) |-> (CHOOSE x \in Range(q) : x.n = ns[i]).p]
Skips(k) == {TokId(G_(k), "WHITE_SPACE")}
TrInit == /\ c \in 1..Len(Trace) /\ done = FALSE /\ steps = 0 /\ FrontInit(Trace[c].case.text, <<>>, <<>>, {})
\* first the tables; an input that is not in scope (not LL(1)) is passed over
Prep == /\ steps = 0 /\ ~done
        /\ \E P \in {Built(G_(c)).P} :
             LET R == {i - 1 : i \in 1..Len(RuleDefs(G_(c)))}
                 N == R \cup NtsOf(P)
                 nul == TLCEval(Nullable(P))
                 F == TLCEval(First(P, N))
                 cs == TLCEval(Cands(P, nul, F, FollowOf(P, N, nul, F)))
             IN /\ U' = N \ R
                /\ IF LL1F(cs) THEN /\ tab' = TLCEval([x \in {<<d[1], d[2]>> : d \in cs} |-> (CHOOSE d \in cs : <<d[1], d[2]>> = x)[3]])
                                    /\ steps' = 1 /\ done' = done
                   ELSE tab' = <<>> /\ steps' = 1 /\ PrintT(<<"NA", c>>) /\ done' = Verdict(c, "")
        /\ pats' = Pats(c)
        /\ UNCHANGED <<text, marks, pos, at, n, ended, toks, stack, cur, rep, st, res, phase, got, c>>
WholeTok(x) == x
Step == /\ ~done /\ steps > 0 /\ steps' = steps + 1 /\ UNCHANGED <<c, done>>
        /\ FrontLex(pats, Skips(c), WholeTok) \/ FrontStart(pats) \/ FrontParse

RECURSIVE UnflatAt(_, _), UnflatKids(_, _, _, _)
UnflatAt(q, i) ==
  IF q[i].k # "R" THEN [t |-> q[i], i |-> i + 1]
  ELSE LET x == UnflatKids(q, i + 1, q[i].n, <<>>)
       IN [t |-> [k |-> "R", ix |-> q[i].ix, nm |-> q[i].nm, src |-> q[i].src, ch |-> x.ch], i |-> x.i]
UnflatKids(q, i, m, acc) ==
  IF m = 0 THEN [ch |-> acc, i |-> i]
  ELSE LET x == UnflatAt(q, i) IN UnflatKids(q, x.i, m - 1, Append(acc, x.t))
Unflat(q) == UnflatAt(q, 1).t
\* ---- what was recorded: preorder list; token names through the grammar's own symbol table
VocName(v, ty) == LET m == {x \in Range(v.ts) : x.id = ty} IN IF m = {} THEN "?" ELSE (CHOOSE x \in m : TRUE).nm
SpecName(ty) == IF ty = 1 THEN "_STOP" ELSE Names(G_(c))[ty - 1]
IxIn(nm) == \E i \in 1..Len(GrammarLits(G_(c))) : GrammarLits(G_(c))[i] = nm
LexName(ty) == IF ty = 1 THEN "_STOP" ELSE LET nm == Names(G_(c))[ty - 1] IN IF IxIn(nm) THEN "" ELSE nm
RECURSIVE FirstBad(_, _)
FirstBad(q, i) == IF i > Len(q) THEN "" ELSE IF q[i] # "" THEN q[i] ELSE FirstBad(q, i + 1)
RECURSIVE LeafSeq(_), LeafSeqs(_, _)
LeafSeq(t) == IF t.k = "T" THEN <<t.t>> ELSE LeafSeqs(t.ch, 1)
LeafSeqs(ch, i) == IF i > Len(ch) THEN <<>> ELSE LeafSeq(ch[i]) \o LeafSeqs(ch, i + 1)
\* the piece of the text a node stands for
Source(t) == LET q == LeafSeq(t) IN IF q = <<>> THEN <<>> ELSE SubSeq(text, q[1].from + 1, q[Len(q)].to)
RECURSIVE SameT(_, _, _)
SameT(s, o, v) ==
  IF s.k = "T"
  THEN IF o.k # "T" THEN "a leaf is missing"
       ELSE Why(<< <<VocName(v, o.t.ty) = SpecName(s.t.ty), "a token has another type than the grammar gives it">>,
                   <<LexName(s.t.ty) = "" \/ o.t.nm = LexName(s.t.ty), "a token has another name than the grammar gives it">>,
                   <<o.t.tx = s.t.tx, "the text of a token">>,
                   <<o.t.sl = s.t.sl /\ o.t.sc = s.t.sc /\ o.t.el = s.t.el /\ o.t.ec = s.t.ec, "the position of a token">>,
                   <<o.t.cs = s.t.cs /\ o.t.ce = s.t.ce /\ o.t.ti = s.t.ti /\ o.t.chn = 0, "the offsets or the number of a token">> >>)
  ELSE IF o.k # "R" \/ s.ix # o.ix \/ o.nm # RuleDefs(G_(c))[s.ix + 1].n \/ Len(s.ch) # Len(o.ch) THEN "a node differs from the tree of the text"
  ELSE IF o.src # Source(s) THEN "the source text of a node"
  ELSE FirstBad([i \in 1..Len(s.ch) |-> SameT(s.ch[i], o.ch[i], v)], 1)
Bad ==
  LET v == O(c).v
      quiet == v.res = "ok" /\ ~v.rep
  IN IF O(c).r # "ok" THEN "reading the text ended with " \o O(c).r
     ELSE IF v.trep THEN "a conflict is reported for an LL(1) grammar"
     ELSE IF Silent
     THEN IF ~PrintT(<<IF ReadOk THEN "READ" ELSE "PREFIX", c>>) THEN ""
          ELSE IF ~quiet /\ ~ReadOk THEN ""    \* a sentence with something behind it may be complained about
          ELSE IF v.res # "ok" THEN "a text of the language is refused"
          ELSE IF v.rep THEN "a text of the language is complained about"
          ELSE SameT(res[1], Unflat(v.tree), v)
     ELSE IF quiet THEN "a text outside the language is read without complaint" ELSE ""
Finish == /\ ~done /\ steps > 0 /\ Over /\ done' = Verdict(c, Bad) /\ UNCHANGED <<fvars, c, steps>>
TrSpec == TrInit /\ [][Prep \/ Step \/ Finish]_<<fvars, c, done, steps>>
=============================================================================
