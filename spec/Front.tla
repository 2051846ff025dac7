------------------------------- MODULE Front -------------------------------
(* A front end for one language: the text is scanned by longest match, the  *)
(* tokens to skip are dropped, and the table-driven machine parses what is  *)
(* left.  If nothing matches somewhere, the rest of the text is complained  *)
(* about and the parser gets the tokens so far, without an end marker.      *)
EXTENDS LL1Parser, Lexer
VARIABLES phase, got       \* "lex" | "parse"; tokens on the default channel
fvars == <<lvars, pvars, phase, got>>
FrontInit(t, ps, T, un) ==
  /\ LexInit(t, ps, TRUE) /\ phase = "lex" /\ got = <<>>
  /\ toks = <<>> /\ tab = T /\ U = un /\ stack = <<>> /\ cur = 0 /\ rep = FALSE /\ st = "wait" /\ res = <<>>
\* a token as the parser sees it, with the characters from..to it covers
PTok(k, j) == LET p == Piece(k, j)
              IN [ty |-> p.ty, tx |-> p.tx, sl |-> p.sl, sc |-> p.sc, el |-> p.el, ec |-> p.ec, ti |-> p.ti, cs |-> p.cs, ce |-> p.ce, from |-> pos, to |-> j]
EndTok == [ty |-> 1, tx |-> StopText, sl |-> at.line, sc |-> at.col, el |-> at.line, ec |-> at.col, ti |-> n, cs |-> at.off, ce |-> at.off, from |-> pos, to |-> pos]
FStuck(P) == IF AtEnd THEN ended ELSE Best(P, text, pos)[1] = 0
\* P: patterns, Sk: token types to skip, View: what of a token matters
FrontLex(P, Sk, View(_)) ==
  /\ phase = "lex" /\ UNCHANGED <<pvars, phase>>
  /\ \/ ~AtEnd /\ LET b == Best(P, text, pos)
                  IN b[1] # 0 /\ Move(b[2]) /\ got' = IF b[1] + 1 \in Sk THEN got ELSE Append(got, View(PTok(b[1], b[2])))
     \/ AtEnd /\ ~ended /\ Stop /\ got' = Append(got, View(EndTok))
FrontStart(P) ==
  /\ phase = "lex" /\ FStuck(P) /\ phase' = "parse" /\ UNCHANGED <<lvars, got>>
  /\ toks' = got /\ UNCHANGED <<tab, U, cur, res>>
  /\ rep' = (pos < Len(text))
  /\ LET ok == got # <<>> /\ <<0, got[1].ty>> \in DOMAIN tab
     IN /\ st' = IF ok THEN "run" ELSE "fail"
        /\ stack' = IF ok THEN << [A |-> 0, rest |-> tab[<<0, got[1].ty>>].r, ch |-> <<>>] >> ELSE <<>>
FrontParse == phase = "parse" /\ st = "run" /\ PNext /\ UNCHANGED <<lvars, phase, got>>
Over == phase = "parse" /\ st # "run"
\* read without complaint
Silent == st = "ok" /\ ~rep
\* ... and completely, up to the end marker
ReadOk == Silent /\ cur = Len(toks) - 1
=============================================================================
