------------------------------ MODULE MC_Front ------------------------------
(* Small front ends: every LL(1) grammar of a family, every short text.  What *)
(* the composed machine accepts, and the trees it builds, against the meaning *)
(* of the rules as written.                                                   *)
EXTENDS Ebnf, Front
CONSTANTS MaxLen, Wide
VARIABLES g
El(k, m, as, s) == [k |-> k, n |-> m, alts |-> as, s |-> s, z |-> FALSE]
Rule(m, as) == [k |-> "P", n |-> m, alts |-> as, re |-> ""]
Lx(m) == [k |-> "L", n |-> m, re |-> "", alts |-> <<>>]
A1 == El("T", "A", <<>>, "")
Sfx == {"", "*", "?"}
Inner == {<< <<A1>>, <<El("S", "'b'", <<>>, "")>> >>, << <<>>, <<El("N", "t", <<>>, "")>> >>, << <<El("S", "'b'", <<>>, "*"), A1>> >>}
Elems == {El("T", "A", <<>>, s) : s \in Sfx} \cup {El("S", "'b'", <<>>, s) : s \in Sfx} \cup {El("N", "t", <<>>, s) : s \in Sfx}
         \cup {El("B", "", i, s) : i \in IF Wide THEN Inner ELSE {<< <<A1>>, <<El("S", "'b'", <<>>, "")>> >>}, s \in {"", "*"}}
Bodies == {<<<<>>>>} \cup {<< <<e>> >> : e \in Elems} \cup {<< <<e, f>> >> : e \in Elems, f \in Elems} \cup {<< <<e>>, <<f>> >> : e \in Elems, f \in Elems}
TBodies == {<< <<El("T", "AB", <<>>, "")>> >>, << <<El("S", "'b'", <<>>, "")>>, <<>> >>}
Family == {<<Rule("s", bd), Lx("A"), Rule("t", tb), Lx("AB"), Lx("WS")>> : bd \in Bodies, tb \in TBodies}
\* 'b' is numbered first: 2; A 3, AB 4, white space 5; when there is no literal A 2, AB 3, 4
OneCh(ch) == [o |-> "set", neg |-> FALSE, r |-> <<<<ch, ch>>>>]
PatOf(nm) == CASE nm = "'b'" -> OneCh(98) [] nm = "A" -> OneCh(97)
               [] nm = "AB" -> [o |-> "seq", a |-> <<OneCh(97), OneCh(98)>>]
               [] OTHER -> [o |-> "plus", x |-> OneCh(32), lazy |-> FALSE]
NamesIn(d) == GrammarLits(d) \o [i \in 1..Len(TokDefs(d)) |-> TokDefs(d)[i].n]
PatsIn(d) == [i \in 1..Len(NamesIn(d)) |-> PatOf(NamesIn(d)[i])]
SkipIn(d) == {TokId(d, "WS")}
Nts(P, d) == {i - 1 : i \in 1..Len(RuleDefs(d))} \cup NtsOf(P)
CandsIn(P, N) == LET nul == Nullable(P)  F == First(P, N) IN Cands(P, nul, F, FollowOf(P, N, nul, F))
TabIn(cs) == [x \in {<<d[1], d[2]>> : d \in cs} |-> (CHOOSE d \in cs : <<d[1], d[2]>> = x)[3]]
InScope(d) == LL1F(CandsIn(Built(d).P, Nts(Built(d).P, d)))
Texts == UNION {[1..k -> {97, 98, 32}] : k \in 0..MaxLen} \cup {<<97, 120>>, <<120>>}
MCInit == \E d \in {x \in Family : InScope(x)} :
            \E P \in {Built(d).P} : \E cs \in {CandsIn(P, Nts(P, d))} : \E T \in {TabIn(cs)} :
              \E t \in Texts : g = d /\ FrontInit(t, PatsIn(d), T, Nts(P, d) \ {i - 1 : i \in 1..Len(RuleDefs(d))})
FullView(x) == x
MCNext == (FrontLex(pats, SkipIn(g), FullView) \/ FrontStart(pats) \/ FrontParse) /\ UNCHANGED g
MCSpec == MCInit /\ [][MCNext]_<<fvars, g>> /\ WF_<<fvars, g>>(MCNext)
\* ---- the text's tokens, said directly
RECURSIVE Toks(_, _)
Toks(t, i) == IF i = Len(t) THEN <<"_STOP">>
              ELSE IF t[i + 1] = 32 THEN Toks(t, i + 1)
              ELSE IF t[i + 1] = 98 THEN <<"'b'">> \o Toks(t, i + 1)
              ELSE IF t[i + 1] # 97 THEN <<"!">>
              ELSE IF i + 1 < Len(t) /\ t[i + 2] = 98 THEN <<"AB">> \o Toks(t, i + 2)
              ELSE <<"A">> \o Toks(t, i + 1)
HasB == GrammarLits(g) # <<>>
Word == SubSeq(Toks(text, 0), 1, Len(Toks(text, 0)) - 1)
Whole == Toks(text, 0)[Len(Toks(text, 0))] = "_STOP" /\ (HasB \/ \A i \in 1..Len(Word) : Word[i] # "'b'")
RECURSIVE LeavesIn(_), LeavesInSeq(_, _)
LeavesIn(t) == IF t.k = "T" THEN <<t.t>> ELSE LeavesInSeq(t.ch, 1)
LeavesInSeq(ch, i) == IF i > Len(ch) THEN <<>> ELSE LeavesIn(ch[i]) \o LeavesInSeq(ch, i + 1)
NmT(t) == IF t.k = "R" THEN Atom(RuleDefs(g)[t.ix + 1].n) ELSE NamesIn(g)[t.t.ty - 1]
RECURSIVE Fits(_, _)
Fits(t, D) == t.k = "R" => /\ BodyMember(D, RuleDefs(g)[t.ix + 1].n, [i \in 1..Len(t.ch) |-> NmT(t.ch[i])])
                           /\ \A i \in 1..Len(t.ch) : Fits(t.ch[i], D)
\* exactly the sentences are read completely, and their tree is one of theirs
Meaning == Over => LET D == Defs(g)
                   IN /\ ReadOk <=> (Whole /\ EMember(D, "s", Word))
                      /\ Silent => /\ \E k \in 0..Len(Word) : EMember(D, "s", SubSeq(Word, 1, k))
                                   /\ Fits(res[1], D)
                      /\ ReadOk => [i \in 1..Len(Word) |-> NmT([k |-> "T", t |-> LeavesIn(res[1])[i]])] = Word
\* every leaf is the piece of the text it claims to be
Located == Over /\ res # <<>> => \A t \in {LeavesIn(res[1])[i] : i \in 1..Len(LeavesIn(res[1]))} :
              t.ty = 1 \/ (t.tx = SubSeq(text, t.from + 1, t.to) /\ t.cs = t.from /\ t.ce = t.to)
Ends_ == <>Over
=============================================================================
