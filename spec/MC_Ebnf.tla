------------------------------ MODULE MC_Ebnf ------------------------------
(* Every grammar of a small scope is rewritten, definition by definition;   *)
(* at the end each rule must denote what was written.                       *)
EXTENDS Ebnf, Json, SequencesExt, IOUtils
CONSTANTS Deep, K
VARIABLES g, todo, b
El(k, n, as, s) == [k |-> k, n |-> n, alts |-> as, s |-> s, z |-> FALSE]
Sfx == {"", "*", "+", "?"}
Base == {El("T", "A", <<>>, s) : s \in Sfx} \cup {El("T", "B", <<>>, ""), El("T", "B", <<>>, "*")}
        \cup {El("N", n, <<>>, s) : n \in {"t"}, s \in Sfx} \cup {El("N", "s", <<>>, "")}
Inner == {<< <<El("T", "A", <<>>, "")>>, <<El("T", "B", <<>>, "")>> >>, << <<>>, <<El("N", "t", <<>>, "")>> >>,
          << <<El("T", "A", <<>>, "*"), El("T", "B", <<>>, "")>> >>}
         \cup (IF Deep THEN { << <<El("B", "", << <<El("T", "A", <<>>, "")>>, <<El("T", "B", <<>>, "")>> >>, "*")>> >> } ELSE {})
Elems == Base \cup {El("B", "", i, s) : i \in Inner, s \in Sfx}
Alts1 == {<<>>} \cup {<<e>> : e \in Elems} \cup {<<e, f>> : e \in Elems, f \in Elems}
Bodies == {<<a>> : a \in Alts1} \cup {<< <<e>>, <<f>> >> : e \in Elems, f \in Elems} \cup {<< <<e>>, <<>> >> : e \in Elems}
LexA == [k |-> "L", n |-> "A", re |-> "/a/", alts |-> <<>>]
LexB == [k |-> "L", n |-> "B", re |-> "/b/", alts |-> <<>>]
P(n, as) == [k |-> "P", n |-> n, alts |-> as, re |-> ""]
\* rule t has number 2 = number of token A: numbers collide on purpose
TBodies == {<< <<El("T", "B", <<>>, "")>> >>} \cup (IF Deep THEN {<< <<El("T", "A", <<>>, ""), El("T", "B", <<>>, "*")>>, <<>> >>} ELSE {})
Grammars == {<<P("s", bd), LexA, P("r", << <<El("N", "t", <<>>, "*"), El("T", "B", <<>>, "")>> >>), P("t", tb), LexB>> : bd \in Bodies, tb \in TBodies}

MCInit == g \in Grammars /\ todo = PRules(g) /\ b = B0(Len(RuleDefs(g)))
MCNext == todo # <<>> /\ b' = BuildRule(g, Head(todo), b) /\ todo' = Tail(todo) /\ g' = g
MCSpec == MCInit /\ [][MCNext]_<<g, todo, b>>

Tid == (2 :> "A") @@ (3 :> "B")
Nid == (0 :> "s") @@ (1 :> "r") @@ (2 :> "t")
\* C05
Preserved == todo = <<>> => LangBad(Defs(g), NamedP(b.P, Tid, Nid), K, 3) = ""
\* C06 (helpers): numbers above every rule, consecutive
HelpersFresh == {i \in NtsOf(b.P) : i \notin 0..2} = 3..(b.next - 1)
\* helper of one suffix and one item stands for one thing only
Functional == /\ \A x, y \in b.sfx : x[1] = y[1] => x = y
              /\ \A x, y \in b.blk : x[1] = y[1] => x = y
\* the two membership tests and the two languages of Ebnf.tla agree
DefsAgree == Len(todo) = 1 =>
   LET D == Defs(g)  L == ELang(D, 3)
   IN \A w \in UNION {[1..n -> {"A", "B"}] : n \in 0..3} : \A r \in DOMAIN D : (w \in L[r]) <=> EMember(D, r, w)
PDefsAgree == todo = <<>> =>
   LET NP == NamedP(b.P, Tid, Nid)  L == Lang(NP, NtsOf(NP) \cup {"s", "r", "t"}, 3)
   IN \A w \in UNION {[1..n -> {"A", "B"}] : n \in 0..3} : (w \in L["s"]) <=> PMember(NP, NtsOf(NP) \cup {"s", "r", "t"}, "s", w)
ShortestOK == todo = <<>> =>
   LET D == Defs(g)  L == ELang(D, 4)  Sh == Shortest(D)
   IN \A r \in DOMAIN D : IF Sh[r] = <<>> THEN L[r] = {}
                          ELSE Len(Sh[r][1]) <= 4 => Sh[r][1] \in L[r] /\ \A w \in L[r] : Len(w) >= Len(Sh[r][1])
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({[rules |-> x] : x \in Grammars}))
=============================================================================
