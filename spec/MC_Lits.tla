------------------------------- MODULE MC_Lits -------------------------------
(* The collecting pass as a machine: a stack of places still to visit, the   *)
(* records so far.  Every small grammar with literals at any depth.          *)
EXTENDS Literals, TLC, Json, SequencesExt, IOUtils
CONSTANTS Variant, K      \* "ok"; broken: "nodedup", "flat" (blocks not entered), "skip" (a block ends the element)
VARIABLES g, stack, recs, next
El(k, n, as) == [k |-> k, n |-> n, alts |-> as, s |-> "", z |-> FALSE]
\* literals as written: 'a'  '\n'  '+'
La == <<39, 97, 39>>  Ln == <<39, 92, 110, 39>>  Lp == <<39, 43, 39>>
Leafs == {El("S", l, <<>>) : l \in {La, Ln, Lp}} \cup {El("T", <<65>>, <<>>)}
B1 == {El("B", <<>>, as) : as \in {<< <<x>> >> : x \in Leafs} \cup {<< <<x>>, <<y>> >> : x \in Leafs, y \in Leafs} \cup {<< <<>>, <<x>> >> : x \in Leafs}}
B2 == {El("B", <<>>, << <<x, y>> >>) : x \in {El("B", <<>>, << <<z>> >>) : z \in Leafs}, y \in Leafs}
Els == Leafs \cup B1 \cup B2
Grammars == {<<[k |-> "P", n |-> "s", alts |-> << <<e, f>> >>, re |-> ""], [k |-> "L", n |-> "A", re |-> "/x/", alts |-> <<>>],
               [k |-> "P", n |-> "t", alts |-> << <<h>> >>, re |-> ""]>> : e \in Els, f \in Els, h \in {El("S", La, <<>>), El("S", Lp, <<>>)}}
PAlts == [i \in {j \in 1..Len(g) : g[j].k = "P"} |-> g[i].alts]
RECURSIVE Places(_, _)
Places(q, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i].k = "P" THEN <<El("B", <<>>, q[i].alts)>> ELSE <<>>) \o Places(q, i + 1)
RECURSIVE Cat(_, _)
Cat(as, i) == IF i > Len(as) THEN <<>> ELSE as[i] \o Cat(as, i + 1)
MCInit == g \in Grammars /\ stack = Places(g, 1) /\ recs = <<>> /\ next = 2
Known(l) == \E i \in 1..Len(recs) : recs[i].lit = l
Visit ==
  /\ stack # <<>> /\ g' = g
  /\ LET e == Head(stack)  top == Len(stack) > 0 /\ \E i \in 1..Len(g) : g[i].k = "P" /\ e = El("B", <<>>, g[i].alts)
     IN /\ stack' = IF e.k = "B" /\ (Variant # "flat" \/ top) THEN Cat(e.alts, 1) \o Tail(stack) ELSE Tail(stack)
        /\ IF e.k = "S" /\ (Variant = "nodedup" \/ ~Known(e.n))
           THEN recs' = Append(recs, [ty |-> next, lit |-> e.n]) /\ next' = next + 1
           ELSE UNCHANGED <<recs, next>>
MCSpec == MCInit /\ [][Visit]_<<g, stack, recs, next>> /\ WF_<<g, stack, recs, next>>(Visit)
Numbered == next = 2 + Len(recs) /\ \A i \in 1..Len(recs) : recs[i].ty = 1 + i
OneEach == stack = <<>> => /\ {recs[i].lit : i \in 1..Len(recs)} = {LitsOf(g, 1)[i] : i \in 1..Len(LitsOf(g, 1))}
                           /\ \A i, j \in 1..Len(recs) : recs[i].lit = recs[j].lit => i = j
InOrder == stack = <<>> => [i \in 1..Len(recs) |-> recs[i].lit] = GrammarLits(g)
Ends == <>(stack = <<>>)
\* every text can be written as a literal and is denoted by it
Alpha == {97, 110, 39, 92, 10, 13, 43, 233}
Quote1(ch) == CASE ch \in {39, 92} -> {<<92, ch>>} [] ch = 10 -> {<<92, 110>>} [] ch = 13 -> {<<92, 114>>, <<92, 117, 123, 100, 125>>, <<92, 117, 123, 48, 120, 100, 125>>}
                [] ch = 233 -> {<<233>>, <<92, 117, 123, 101, 57, 125>>, <<92, 117, 123, 48, 101, 57, 125>>} [] OTHER -> {<<ch>>}
RECURSIVE Quotings(_, _)
Quotings(s, i) == IF i > Len(s) THEN {<<>>} ELSE {a \o b : a \in Quote1(s[i]), b \in Quotings(s, i + 1)}
Texts == UNION {[1..n -> Alpha] : n \in 0..K}
ASSUME \A s \in Texts : \A q \in Quotings(s, 1) : Denote(<<39>> \o q \o <<39>>) = s
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({<<39>> \o q \o <<39>> : q \in UNION {Quotings(s, 1) : s \in Texts}}))
=============================================================================
