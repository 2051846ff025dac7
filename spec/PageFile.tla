------------------------------ MODULE PageFile ------------------------------
(* Writing the page to a file.  The operating system answers every write     *)
(* with how much it took, an interruption, or a failure; creating the file   *)
(* may fail; the file may have held anything before.                         *)
EXTENDS Naturals, Sequences
CONSTANTS PageLen, Mode        \* "all", or a broken writer: "once", "keepold", "drop", "samelen", "prefix"
VARIABLES old, file, todo, script, st
\* file: <<"p", i>> is the i-th piece of the page, <<"o", i>> old content
PageText == [i \in 1..PageLen |-> <<"p", i>>]
Answers == {"b0", "b1", "b2", "intr", "io", "nospc"}   \* bytes taken, or the failure
Takes(a) == CASE a = "b1" -> 1 [] a = "b2" -> 2 [] OTHER -> 0
Scripts(n) == UNION {[1..k -> Answers] : k \in 0..n}
vars == <<old, file, todo, script, st>>
\* what the file held: nothing of the page, all of it, its beginning, all but a piece, or more than it
Others(n) == [i \in 1..n |-> <<"o", i>>]
Olds == {Others(n) : n \in 0..(PageLen + 1)} \cup {SubSeq(PageText, 1, n) : n \in 1..PageLen}
        \cup {PageText \o Others(1), Others(1) \o PageText} \cup {[PageText EXCEPT ![i] = <<"o", i>>] : i \in 1..PageLen}
\* a broken writer that thinks the page is already there
Skips == \/ Mode = "samelen" /\ Len(file) = PageLen
         \/ Mode = "prefix" /\ Len(file) >= PageLen /\ SubSeq(file, 1, PageLen) = PageText
Skip == st = "start" /\ Skips /\ st' = "returned" /\ UNCHANGED <<old, file, todo, script>>
Create == /\ st = "start" /\ ~Skips /\ st' = "writing"
          /\ file' = IF Mode = "keepold" THEN file ELSE <<>>
          /\ UNCHANGED <<old, todo, script>>
CantCreate == st = "start" /\ st' = "failed" /\ UNCHANGED <<old, file, todo, script>>
Put(n) == LET at == PageLen - todo
              new == [i \in 1..n |-> PageText[at + i]]
              keep == IF Len(file) > at + n THEN SubSeq(file, at + n + 1, Len(file)) ELSE <<>>
          IN SubSeq(file, 1, at) \o new \o keep
Took == IF script = <<>> THEN todo ELSE IF Takes(Head(script)) > todo THEN todo ELSE Takes(Head(script))
Pop == script' = IF script = <<>> THEN script ELSE Tail(script)
Write ==
  /\ st = "writing" /\ todo > 0 /\ Pop /\ UNCHANGED old
  /\ IF script # <<>> /\ Head(script) = "intr" THEN UNCHANGED <<file, todo>> /\ st' = IF Mode = "once" THEN "returned" ELSE "writing"
     ELSE IF script # <<>> /\ Head(script) \in {"io", "nospc", "b0"} THEN UNCHANGED <<file, todo>> /\ st' = IF Mode \in {"drop", "once"} THEN "returned" ELSE "failed"
     ELSE file' = Put(Took) /\ todo' = todo - Took /\ st' = IF Mode = "once" THEN "returned" ELSE "writing"
Return == st = "writing" /\ todo = 0 /\ st' = "returned" /\ UNCHANGED <<old, file, todo, script>>
FInit(n) == /\ old \in Olds /\ file = old /\ todo = PageLen /\ script \in Scripts(n) /\ st = "start"
FNext == Skip \/ Create \/ CantCreate \/ Write \/ Return
=============================================================================
