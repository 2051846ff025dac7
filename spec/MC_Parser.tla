----------------------------- MODULE MC_Parser -----------------------------
(* Every LL(1) grammar of a small scope, every entry, every input up to     *)
(* MaxIn tokens followed by the end marker (or by any token, which covers   *)
(* entries other than the start).                                           *)
EXTENDS LL1Parser, TLC, Json, SequencesExt, IOUtils
CONSTANTS MCN, MCT, MaxR, MaxP, MaxIn, Helpers
VARIABLES P, entry, last
Syms == {<<"N", a>> : a \in MCN} \cup {<<"T", t>> : t \in MCT}
Rhs == UNION {[1..n -> Syms] : n \in 0..MaxR}
Prods == {[l |-> a, r |-> s] : a \in MCN, s \in Rhs}
RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN {{}} ELSE LET S == UpTo(n - 1) IN S \cup {s \cup {p} : s \in S, p \in Prods}
CandsOf(g) == LET nul == Nullable(g)  F == First(g, MCN) IN Cands(g, nul, F, FollowOf(g, MCN, nul, F))
Grammars == {g \in UpTo(MaxP) : {p.l : p \in g} = MCN /\ LL1F(CandsOf(g))}
TabOf(C) == [x \in {<<c[1], c[2]>> : c \in C} |-> (CHOOSE c \in C : <<c[1], c[2]>> = x)[3]]
Inputs == UNION {[1..n -> MCT] : n \in 0..MaxIn}
Tok(i, t) == [ty |-> t, ix |-> i]
MCInit == /\ P \in Grammars /\ entry \in MCN \ Helpers /\ last \in MCT \cup {STOP}
          /\ \E w \in Inputs : LET f == Append(w, last) IN
                ParseInit([i \in 1..Len(f) |-> Tok(i, f[i])], TabOf(CandsOf(P)), Helpers, entry)
MCNext == PNext /\ UNCHANGED <<P, entry, last>>
MCSpec == MCInit /\ [][MCNext]_<<pvars, P, entry, last>> /\ WF_<<pvars, P, entry, last>>(MCNext)
W == [i \in 1..(Len(toks) - 1) |-> toks[i].ty]
Silent == st = "ok" /\ ~rep
FollowE == Follow(P, MCN)[entry]
\* C07: a sentence followed by something that may follow it is parsed silently, completely, into its tree
Sentence == W \in Lang(P, MCN, MaxIn)[entry] /\ last \in FollowE
Complete == st # "run" /\ Sentence => /\ Silent /\ cur = Len(toks) - 1
                                      /\ IsTree(res[1], ByLeft(P, MCN), Helpers) /\ Yield(res[1]) = SubSeq(toks, 1, cur)
\* C08: silent means: a parse tree of a prefix
Sound == Silent => /\ IsTree(res[1], ByLeft(P, MCN), Helpers)
                   /\ Yield(res[1]) = SubSeq(toks, 1, cur)
                   /\ res[1].ix = entry
                   /\ [i \in 1..cur |-> toks[i].ty] \in Lang(P, MCN, MaxIn + 1)[entry]
\* conversely, what the machine accepts silently and completely is a sentence
Exact == Silent /\ cur = Len(toks) - 1 => W \in Lang(P, MCN, MaxIn)[entry]
Terminates == <>(st # "run")
=============================================================================
