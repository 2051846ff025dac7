-------------------------------- MODULE Page --------------------------------
(* A drawn page: tree contents are written into template strings inside the  *)
(* script element, the browser reads the page back: first the HTML tokenizer *)
(* decides where the script ends, then the script's strings are read.        *)
(* Characters are code points; Scr stands for the word "script".             *)
EXTENDS Naturals, Sequences
Scr == 1000
Bt == 96  Bs == 92  Dl == 36  Lb == 123  Lt == 60  Sl == 47  Ex == 33  Da == 45  Gt == 62  Cr == 13  Lf == 10
(* ---- writer --------------------------------------------------------------*)
Esc(level, ch) ==
  IF level = "none" THEN <<ch>>
  ELSE IF ch \in {Bt, Bs} THEN <<Bs, ch>>
  ELSE IF level = "quotes" THEN <<ch>>
  ELSE IF ch = Dl THEN <<Bs, Dl>>
  ELSE IF level = "dollar" THEN <<ch>>
  ELSE IF ch = Lt THEN <<Bs, 120, 51, 99>>
  ELSE IF level = "markup" THEN <<ch>>
  ELSE IF ch = Cr THEN <<Bs, 114>> ELSE <<ch>>
RECURSIVE Encode(_, _, _)
Encode(level, s, i) == IF i > Len(s) THEN <<>> ELSE Esc(level, s[i]) \o Encode(level, s, i + 1)
(* ---- browser: input stream -----------------------------------------------*)
RECURSIVE Newlines(_, _)
Newlines(s, i) == IF i > Len(s) THEN <<>>
                  ELSE IF s[i] = Cr THEN <<Lf>> \o Newlines(s, IF i < Len(s) /\ s[i + 1] = Lf THEN i + 2 ELSE i + 1)
                  ELSE <<s[i]>> \o Newlines(s, i + 1)
Starts(s, i, q) == i + Len(q) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(q) - 1) = q
\* the word after a tag opener must end there
TagEnd(s, i) == i <= Len(s) /\ s[i] \in {Gt, Sl, 32, Lf, 9, 12}
\* one step of the script-data tokenizer: new state and number of characters taken;
\* "plain", "esc" (after <!--), "dbl" (after <!-- <script), "end"
TokStep(s, i, h) ==
  CASE h = "plain" /\ Starts(s, i, <<Lt, Ex, Da, Da>>) -> [h |-> "esc", n |-> 2]
    [] h \in {"plain", "esc"} /\ Starts(s, i, <<Lt, Sl, Scr>>) /\ TagEnd(s, i + 3) -> [h |-> "end", n |-> 0]
    [] h \in {"esc", "dbl"} /\ Starts(s, i, <<Da, Da, Gt>>) -> [h |-> "plain", n |-> 3]
    [] h = "esc" /\ Starts(s, i, <<Lt, Scr>>) /\ TagEnd(s, i + 2) -> [h |-> "dbl", n |-> 2]
    [] h = "dbl" /\ Starts(s, i, <<Lt, Sl, Scr>>) /\ TagEnd(s, i + 3) -> [h |-> "esc", n |-> 3]
    [] OTHER -> [h |-> h, n |-> 1]
(* ---- browser: a template string's text from position i (after the quote) --*)
\* result: ok, the characters, the position after the closing quote; code: an interpolation was met
RECURSIVE Literal(_, _, _)
Literal(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> FALSE, code |-> FALSE, v |-> acc, i |-> i]
  ELSE IF s[i] = Bt THEN [ok |-> TRUE, code |-> FALSE, v |-> acc, i |-> i + 1]
  ELSE IF s[i] = Dl /\ i < Len(s) /\ s[i + 1] = Lb THEN [ok |-> FALSE, code |-> TRUE, v |-> acc, i |-> i]
  ELSE IF s[i] # Bs THEN Literal(s, i + 1, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN [ok |-> FALSE, code |-> FALSE, v |-> acc, i |-> i]
  ELSE LET e == s[i + 1]
       IN IF e = 120 THEN Literal(s, i + 4, Append(acc, 60))     \* \x3c
          ELSE IF e = 114 THEN Literal(s, i + 2, Append(acc, Cr))
          ELSE IF e = Lf THEN Literal(s, i + 2, acc)             \* line continuation
          ELSE Literal(s, i + 2, Append(acc, e))
(* ---- the page's title: markup characters are written as references --------*)
\* Ttl stands for the word "title", Amp for "amp", Ltw for "lt"
Ttl == 1001  AmpW == 1002  LtW == 1003  And == 38  Semi == 59
TEsc(level, ch) == IF ch = And /\ level \notin {"none", "lt"} THEN <<And, AmpW, Semi>>
                   ELSE IF ch = Lt /\ level \notin {"none", "amp"} THEN <<And, LtW, Semi>> ELSE <<ch>>
RECURSIVE TEncode(_, _, _)
TEncode(level, s, i) == IF i > Len(s) THEN <<>> ELSE TEsc(level, s[i]) \o TEncode(level, s, i + 1)
\* reading: the element ends at its end tag, references are resolved (the semicolon may be missing)
TEnd(s, i) == Starts(s, i, <<Lt, Sl, Ttl>>) /\ TagEnd(s, i + 3)
RECURSIVE TRead(_, _, _)
TRead(s, i, acc) ==
  IF i > Len(s) \/ TEnd(s, i) THEN [v |-> acc, i |-> i]
  ELSE IF s[i] = And /\ i < Len(s) /\ s[i + 1] \in {AmpW, LtW}
       THEN TRead(s, IF i + 1 < Len(s) /\ s[i + 2] = Semi THEN i + 3 ELSE i + 2, Append(acc, IF s[i + 1] = AmpW THEN And ELSE Lt))
  ELSE TRead(s, i + 1, Append(acc, s[i]))
\* what a reader of the title sees: runs of blanks are one space, none at the ends
TWs == {9, 10, 12, 13, 32}
RECURSIVE TShow(_, _, _)
TShow(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \notin TWs THEN TShow(s, i + 1, Append(acc, s[i]))
  ELSE IF acc = <<>> \/ i = Len(s) \/ s[i + 1] \in TWs THEN TShow(s, i + 1, acc)
  ELSE TShow(s, i + 1, Append(acc, 32))
=============================================================================
