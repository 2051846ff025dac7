-------------------------------- MODULE Ebnf --------------------------------
(* Grammars as written (EBNF) and their meaning; rewriting into plain       *)
(* productions with shared helper nonterminals; symbol numbering.           *)
(* A grammar is a sequence of definitions                                   *)
(*   [k |-> "P", n |-> name, alts |-> <<alt, ...>>]  or  [k |-> "L", n, re] *)
(* an alternative a sequence of elements, the empty one being epsilon, and  *)
(* an element [k |-> "T"|"S"|"N"|"B", n, alts, s |-> ""|"*"|"+"|"?"]; "S" is*)
(* a string literal, n its text as written: a token of that name.           *)
EXTENDS CFG, TLC, Literals

PRules(g) == SelectSeq(g, LAMBDA d : d.k = "P")
LRules(g) == SelectSeq(g, LAMBDA d : d.k = "L")
\* first occurrences of names, in order
RECURSIVE FirstDefs(_, _)
FirstDefs(q, acc) == IF q = <<>> THEN acc
                     ELSE FirstDefs(Tail(q), IF \E i \in 1..Len(acc) : acc[i].n = Head(q).n THEN acc ELSE Append(acc, Head(q)))
RuleDefs(g) == FirstDefs(PRules(g), <<>>)
TokDefs(g) == FirstDefs(LRules(g), <<>>)
HasDup(q) == \E i, j \in 1..Len(q) : i # j /\ q[i].n = q[j].n
FIRSTTOK == 2
IxOf(q, n) == CHOOSE i \in 1..Len(q) : q[i].n = n
\* literals are numbered before the defined tokens
IsTok(e) == e.k \in {"T", "S"}
TokId(g, n) == LET l == GrammarLits(g)
               IN IF \E i \in 1..Len(l) : l[i] = n THEN FIRSTTOK - 1 + (CHOOSE i \in 1..Len(l) : l[i] = n)
                  ELSE FIRSTTOK + Len(l) + IxOf(TokDefs(g), n) - 1
RuleId(g, n) == IxOf(RuleDefs(g), n) - 1

-----------------------------------------------------------------------------
(* Meaning: bounded languages.  L maps rule names to sets of words.         *)
RECURSIVE StarK(_, _, _)
StarK(S, X, k) == LET Y == X \cup CatK(S, X, k) IN IF Y = X THEN X ELSE StarK(S, Y, k)
SuffixLang(S, s, k) == CASE s = "" -> S
                         [] s = "?" -> S \cup {<<>>}
                         [] s = "*" -> StarK(S, {<<>>}, k)
                         [] OTHER -> CatK(S, StarK(S, {<<>>}, k), k)
RECURSIVE AltsLang(_, _, _), AltLang(_, _, _, _), ElemLang(_, _, _)
ElemLang(e, L, k) ==
  SuffixLang(CASE IsTok(e) -> IF k >= 1 THEN {<<e.n>>} ELSE {}
               [] e.k = "N" -> L[e.n]
               [] OTHER -> AltsLang(e.alts, L, k), e.s, k)
AltLang(a, i, L, k) == IF i > Len(a) THEN {<<>>} ELSE CatK(ElemLang(a[i], L, k), AltLang(a, i + 1, L, k), k)
AltsLang(as, L, k) == UNION {AltLang(as[i], 1, L, k) : i \in 1..Len(as)}
RECURSIVE ELangFix(_, _, _)
ELangFix(D, L, k) ==
  LET G == [n \in DOMAIN L |-> L[n] \cup AltsLang(D[n], L, k)]
  IN IF G = L THEN L ELSE ELangFix(D, G, k)
\* definitions as a function of names
Defs(g) == LET R == RuleDefs(g) IN [n \in {R[i].n : i \in 1..Len(R)} |-> R[IxOf(R, n)].alts]
ELang(D, k) == ELangFix(D, [n \in DOMAIN D |-> {}], k)

(* Words over symbols: rule references stay as atoms.                       *)
Atom(n) == "@" \o n
SymLang(D, n, k) == AltsLang(D[n], [m \in DOMAIN D |-> {<<Atom(m)>>}], k)

(* Membership: positions reachable in word w; S[rule][i] the ends j known   *)
(* so far of pieces i..j of w that the rule derives.                        *)
RECURSIVE EEndsAlts(_, _, _, _), EEndsAlt(_, _, _, _, _), EEndsElem(_, _, _, _), EClose(_, _, _, _)
EBase(e, w, I, S) == CASE IsTok(e) -> {i + 1 : i \in {j \in I : j < Len(w) /\ w[j + 1] = e.n}}
                       [] e.k = "N" -> UNION {S[e.n][i] : i \in I}
                                       \cup {i + 1 : i \in {j \in I : j < Len(w) /\ w[j + 1] = Atom(e.n)}}
                       [] OTHER -> EEndsAlts(e.alts, w, I, S)
EClose(e, w, I, S) == LET J == I \cup EBase(e, w, I, S) IN IF J = I THEN I ELSE EClose(e, w, J, S)
EEndsElem(e, w, I, S) == CASE e.s = "" -> EBase(e, w, I, S)
                           [] e.s = "?" -> I \cup EBase(e, w, I, S)
                           [] e.s = "*" -> EClose(e, w, I, S)
                           [] OTHER -> EClose(e, w, EBase(e, w, I, S), S)
EEndsAlt(a, k, w, I, S) == IF k > Len(a) \/ I = {} THEN I ELSE EEndsAlt(a, k + 1, w, EEndsElem(a[k], w, I, S), S)
EEndsAlts(as, w, I, S) == UNION {EEndsAlt(as[k], 1, w, I, S) : k \in 1..Len(as)}
NoFacts(names, w) == [n \in names |-> [i \in 0..Len(w) |-> {}]]
RECURSIVE EFactsFix(_, _, _)
EFactsFix(D, w, S) ==
  LET G == [n \in DOMAIN D |-> [i \in 0..Len(w) |-> EEndsAlts(D[n], w, {i}, S)]]
  IN IF G = S THEN S ELSE EFactsFix(D, w, G)
EFacts(D, w) == EFactsFix(D, w, NoFacts(DOMAIN D, w))
EMember(D, n, w) == Len(w) \in EFacts(D, w)[n][0]
\* w is a word of n's body when rule references are read as symbols
BodyMember(D, n, w) == Len(w) \in EEndsAlts(D[n], w, {0}, NoFacts(DOMAIN D, w))

(* Shortest words.                                                          *)
Shorter(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Len(a[1]) <= Len(b[1]) THEN a ELSE b
RECURSIVE ShAlts(_, _, _), ShAlt(_, _, _)
ShElem(e, W) ==
  IF e.s \in {"*", "?"} THEN << <<>> >>
  ELSE CASE IsTok(e) -> << <<e.n>> >> [] e.k = "N" -> W[e.n] [] OTHER -> ShAlts(e.alts, 1, W)
ShAlt(a, i, W) == IF i > Len(a) THEN << <<>> >>
                  ELSE LET x == ShElem(a[i], W)  y == ShAlt(a, i + 1, W)
                       IN IF x = <<>> \/ y = <<>> THEN <<>> ELSE << x[1] \o y[1] >>
ShAlts(as, i, W) == IF i > Len(as) THEN <<>> ELSE Shorter(ShAlt(as[i], 1, W), ShAlts(as, i + 1, W))
RECURSIVE ShFix(_, _)
ShFix(D, W) == LET G == [n \in DOMAIN D |-> Shorter(W[n], ShAlts(D[n], 1, W))] IN IF G = W THEN W ELSE ShFix(D, G)
Shortest(D) == ShFix(D, [n \in DOMAIN D |-> <<>>])

-----------------------------------------------------------------------------
(* Membership on the production side (names instead of numbers).            *)
RECURSIVE PEnds(_, _, _, _, _)
PEnds(r, k, w, I, S) ==
  IF k > Len(r) \/ I = {} THEN I
  ELSE PEnds(r, k + 1, w,
             IF IsT(r[k]) THEN {i + 1 : i \in {j \in I : j < Len(w) /\ w[j + 1] = Id(r[k])}}
             ELSE UNION {S[Id(r[k])][i] : i \in I}, S)
RECURSIVE PFactsFix(_, _, _)
PFactsFix(PL, w, S) ==
  LET G == [n \in DOMAIN PL |-> [i \in 0..Len(w) |-> UNION {PEnds(p.r, 1, w, {i}, S) : p \in PL[n]}]]
  IN IF G = S THEN S ELSE PFactsFix(PL, w, G)
PFacts(P, N, w) == PFactsFix(ByLeft(P, N), w, NoFacts(N, w))
PMember(P, N, n, w) == Len(w) \in PFacts(P, N, w)[n][0]

-----------------------------------------------------------------------------
(* The rewriting, as the tool performs it: helper numbers are handed out in *)
(* order; equal sub-expressions share a helper.  Key(item) is what the      *)
(* suffix caches compare (the whole symbol).                                *)
CONSTANT KeyById     \* TRUE: caches compare numbers only (a broken design)
Key(it) == IF KeyById THEN Id(it) ELSE it
\* builder state: productions, next helper number, caches as sets of <<key, id>>
B0(next) == [P |-> {}, next |-> next, blk |-> {}, sfx |-> {}]
Hit(S, key) == {x[2] : x \in {y \in S : y[1] = key}}

RECURSIVE BuildElem(_, _, _), BuildAlt(_, _, _, _), BuildAlts(_, _, _, _)
Suffixed(it, s, b) ==
  IF s = "" THEN [it |-> it, b |-> b]
  ELSE LET hit == Hit(b.sfx, <<s, Key(it)>>)
       IN IF hit # {} THEN [it |-> <<"N", CHOOSE x \in hit : TRUE>>, b |-> b]
          ELSE LET h == b.next
                   me == <<"N", h>>
                   new == CASE s = "*" -> {[l |-> h, r |-> <<>>], [l |-> h, r |-> <<it, me>>]}
                            [] s = "+" -> {[l |-> h, r |-> <<it>>], [l |-> h, r |-> <<it, me>>]}
                            [] OTHER -> {[l |-> h, r |-> <<>>], [l |-> h, r |-> <<it>>]}
               IN [it |-> me, b |-> [b EXCEPT !.P = @ \cup new, !.next = h + 1, !.sfx = @ \cup {<<<<s, Key(it)>>, h>>}]]
BuildElem(g, e, b) ==
  IF IsTok(e) THEN Suffixed(<<"T", TokId(g, e.n)>>, e.s, b)
  ELSE IF e.k = "N" THEN Suffixed(<<"N", RuleId(g, e.n)>>, e.s, b)
  ELSE LET x == BuildAlts(g, e.alts, <<>>, b)
           hit == Hit(x.b.blk, x.rs)
       IN IF hit # {} THEN Suffixed(<<"N", CHOOSE y \in hit : TRUE>>, e.s, x.b)
          ELSE LET h == x.b.next
               IN Suffixed(<<"N", h>>, e.s,
                    [x.b EXCEPT !.next = h + 1, !.blk = @ \cup {<<x.rs, h>>},
                                !.P = @ \cup {[l |-> h, r |-> x.rs[i]] : i \in 1..Len(x.rs)}])
BuildAlt(g, a, r, b) == IF a = <<>> THEN [r |-> r, b |-> b]
                        ELSE LET x == BuildElem(g, Head(a), b) IN BuildAlt(g, Tail(a), Append(r, x.it), x.b)
BuildAlts(g, as, rs, b) == IF as = <<>> THEN [rs |-> rs, b |-> b]
                           ELSE LET x == BuildAlt(g, Head(as), <<>>, b) IN BuildAlts(g, Tail(as), Append(rs, x.r), x.b)
\* one definition
BuildRule(g, d, b) == LET x == BuildAlts(g, d.alts, <<>>, b)
                      IN [x.b EXCEPT !.P = @ \cup {[l |-> RuleId(g, d.n), r |-> x.rs[i]] : i \in 1..Len(x.rs)}]
RECURSIVE BuildAll(_, _, _)
BuildAll(g, q, b) == IF q = <<>> THEN b ELSE BuildAll(g, Tail(q), BuildRule(g, Head(q), b))
Built(g) == BuildAll(g, PRules(g), B0(Len(RuleDefs(g))))

-----------------------------------------------------------------------------
(* Named view of a production set: tid, nid map numbers to names; helpers   *)
(* have none.                                                               *)
Helper(i) == "#" \o ToString(i)
NName(nid, i) == IF i \in DOMAIN nid THEN nid[i] ELSE Helper(i)
TName(tid, i) == IF i \in DOMAIN tid THEN tid[i] ELSE "?" \o ToString(i)
NamedSym(s, tid, nid) == IF IsT(s) THEN <<"T", TName(tid, Id(s))>> ELSE <<"N", NName(nid, Id(s))>>
NamedP(P, tid, nid) == {[l |-> NName(nid, p.l), r |-> [i \in 1..Len(p.r) |-> NamedSym(p.r[i], tid, nid)]] : p \in P}
NtsOf(P) == {p.l : p \in P} \cup UNION {{Id(p.r[i]) : i \in {j \in 1..Len(p.r) : IsN(p.r[j])}} : p \in P}
\* rule references as atoms
AtomP(P, names) == {[l |-> p.l, r |-> [i \in 1..Len(p.r) |->
                       IF IsN(p.r[i]) /\ Id(p.r[i]) \in names THEN <<"T", Atom(Id(p.r[i]))>> ELSE p.r[i]]] : p \in P}
\* productions reachable from n through helpers only
RECURSIVE ReachP(_, _)
ReachP(P, S) == LET T == S \cup UNION {{Id(p.r[i]) : i \in {j \in 1..Len(p.r) : IsN(p.r[j])}} : p \in {q \in P : q.l \in S}}
                IN IF T = S THEN {p \in P : p.l \in S} ELSE ReachP(P, T)
SymLangP(AP, n, k) == LET Q == ReachP(AP, {n}) IN Lang(Q, {n} \cup NtsOf(Q), k)[n]

\* instantiate the rule references in a symbol word by shortest words (<<>> if impossible)
RECURSIVE Inst(_, _)
Inst(w, Sh) ==
  IF w = <<>> THEN << <<>> >>
  ELSE LET rest == Inst(Tail(w), Sh)
           ns == {n \in DOMAIN Sh : Atom(n) = Head(w)}
           h == IF ns = {} THEN << <<Head(w)>> >> ELSE Sh[CHOOSE n \in ns : TRUE]
       IN IF rest = <<>> \/ h = <<>> THEN <<>> ELSE << h[1] \o rest[1] >>

\* "" when productions P (named) denote, for every rule, what D denotes: token words up to k,
\* symbol words up to ks (a differing symbol word counts only if a token string witnesses it)
LangBad(D, P, k, ks) ==
  LET names == DOMAIN D
      N == names \cup NtsOf(P)
      AP == AtomP(P, names)
      Sh == Shortest(D)
      tokBad == IF k = 0 THEN {} ELSE LET L == Lang(P, N, k)  E == ELang(D, k) IN {n \in names : L[n] # E[n]}
      witness(n) == LET X == SymLang(D, n, ks)
                        Y == SymLangP(AP, n, ks)
                    IN \E w \in (X \ Y) \cup (Y \ X) :
                         LET s == Inst(w, Sh) IN s # <<>> /\ EMember(D, n, s[1]) # PMember(P, N, n, s[1])
  IN IF tokBad # {} THEN "language of rule " \o (CHOOSE n \in tokBad : TRUE) \o " changed"
     ELSE IF \E n \in names : witness(n) THEN "language of a rule changed (symbol words)"
     ELSE ""
=============================================================================
