----------------------------- MODULE TreeQuery ------------------------------
(* Selecting children, typed access, spans and printed forms.                *)
(* Leaves carry their token t; numbers are compared as given.                *)
EXTENDS Tree
\* direct children of i of kind k and number ty, in order
NumOf(q, j) == IF q[j].k = "R" THEN q[j].ix ELSE q[j].t.ty
Select(q, i, k, ty) == SelectSeq(Kids(q, i), LAMBDA j : q[j].k = k /\ NumOf(q, j) = ty)
Nth(s, i) == IF i < Len(s) THEN <<s[i + 1]>> ELSE <<>>

\* typed accessors: owner, accessor, kind, many, name of the number
Acc == << <<"rule_list", "parser_rule_list", "R", TRUE, "parser_rule">>, <<"rule_list", "lexer_rule_list", "R", TRUE, "lexer_rule">>,
          <<"parser_rule", "rule_ref", "T", FALSE, "RULE_REF">>, <<"parser_rule", "colon", "T", FALSE, "COLON">>,
          <<"parser_rule", "block", "R", FALSE, "block">>, <<"parser_rule", "semi", "T", FALSE, "SEMI">>,
          <<"block", "alternative_list", "R", TRUE, "alternative">>, <<"block", "or_list", "T", TRUE, "OR">>,
          <<"alternative", "element_list", "R", TRUE, "element">>, <<"alternative", "epsilon", "R", FALSE, "epsilon">>,
          <<"epsilon", "epsilon", "T", FALSE, "EPSILON">>,
          <<"element", "token_ref", "T", FALSE, "TOKEN_REF">>, <<"element", "string_literal", "T", FALSE, "STRING_LITERAL">>,
          <<"element", "rule_ref", "T", FALSE, "RULE_REF">>, <<"element", "lparen", "T", FALSE, "LPAREN">>,
          <<"element", "rparen", "T", FALSE, "RPAREN">>, <<"element", "block", "R", FALSE, "block">>,
          <<"element", "ebnf_suffix", "R", FALSE, "ebnf_suffix">>, <<"ebnf_suffix", "star", "T", FALSE, "STAR">>,
          <<"ebnf_suffix", "plus", "T", FALSE, "PLUS">>, <<"ebnf_suffix", "question_list", "T", TRUE, "QUESTION">>,
          <<"lexer_rule", "token_ref", "T", FALSE, "TOKEN_REF">>, <<"lexer_rule", "colon", "T", FALSE, "COLON">>,
          <<"lexer_rule", "semi", "T", FALSE, "SEMI">>, <<"lexer_rule", "regular", "R", FALSE, "regular">>,
          <<"regular", "regular_literal", "T", FALSE, "REGULAR_LITERAL">> >>
RuleNo == [rule_list |-> "0", parser_rule |-> "1", block |-> "2", alternative |-> "3", epsilon |-> "4", element |-> "5",
           ebnf_suffix |-> "6", lexer_rule |-> "7", regular |-> "8"]
TokNo(fam) ==
  IF fam = "old" THEN [TOKEN_REF |-> "6", RULE_REF |-> "7", COLON |-> "8", OR |-> "9", SEMI |-> "10", STAR |-> "11", PLUS |-> "12", QUESTION |-> "13",
                       LPAREN |-> "16", RPAREN |-> "17", STRING_LITERAL |-> "19", REGULAR_LITERAL |-> "21", EPSILON |-> "22"]
  ELSE [RULE_REF |-> "2", TOKEN_REF |-> "3", COLON |-> "4", SEMI |-> "5", OR |-> "6", EPSILON |-> "7", STAR |-> "8", PLUS |-> "9", QUESTION |-> "10",
        LPAREN |-> "11", RPAREN |-> "12", STRING_LITERAL |-> "13", REGULAR_LITERAL |-> "14"]
\* what accessor a of Acc denotes at node i
Denotes(q, i, fam, a) ==
  LET s == Select(q, i, a[3], IF a[3] = "R" THEN RuleNo[a[5]] ELSE TokNo(fam)[a[5]])
  IN IF a[4] THEN s ELSE Nth(s, 0)

(* ---- spans ---------------------------------------------------------------*)
StartLeaf(q, i) == Nth(Leaves(q, i), 0)
StopLeaf(q, i) == LET s == Leaves(q, i) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
NoErrors(q, i) == \A j \in i..(EndOf(q, i) - 1) : q[j].k # "E"
WidthOf(ch) == IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
RECURSIVE Slice(_, _, _, _, _)
\* characters of w lying in bytes a..b-1, at being the byte offset of character k
Slice(w, a, b, k, at) ==
  IF k > Len(w) \/ at >= b THEN <<>>
  ELSE (IF at >= a THEN <<w[k]>> ELSE <<>>) \o Slice(w, a, b, k + 1, at + WidthOf(w[k]))
SourceText(q, i, w) ==
  LET s == Leaves(q, i) IN IF s = <<>> THEN <<>> ELSE Slice(w, q[s[1]].t.cs, q[s[Len(s)]].t.ce, 1, 0)
=============================================================================
