------------------------------ MODULE Patterns ------------------------------
(* The token patterns of the grammar language, in the order they are         *)
(* declared, for the bootstrapped (V1) and the hand-written (Boot) lexer.     *)
EXTENDS Naturals, Sequences
S(r) == [o |-> "set", neg |-> FALSE, r |-> r]
NS(r) == [o |-> "set", neg |-> TRUE, r |-> r]
C(ch) == S(<<<<ch, ch>>>>)
Lit(q) == [o |-> "seq", a |-> [i \in 1..Len(q) |-> C(q[i])]]
Seq2(q) == [o |-> "seq", a |-> q]
Alt(q) == [o |-> "alt", a |-> q]
Star(x) == [o |-> "star", x |-> x, lazy |-> FALSE]
LStar(x) == [o |-> "star", x |-> x, lazy |-> TRUE]
Plus(x) == [o |-> "plus", x |-> x, lazy |-> FALSE]
Opt(x) == [o |-> "opt", x |-> x, lazy |-> FALSE]
Lower == <<97, 122>>  Upper == <<65, 90>>  Digit == <<48, 57>>  Under == <<95, 95>>
IdTail == Plus(S(<<Lower, Upper, Digit, Under>>))
RuleRef == Seq2(<<S(<<Lower>>), IdTail>>)
TokenRef == Seq2(<<S(<<Upper>>), IdTail>>)
Colon == Alt(<<Lit(<<58, 58, 61>>), Lit(<<58, 61>>), Lit(<<45, 62>>), Lit(<<61, 62>>), C(58), C(61)>>)
Epsilon == Alt(<<C(949), Lit(<<101, 112, 115, 105, 108, 111, 110>>)>>)
BSlash == 92  Quote == 39  Slash == 47
Esc(ch) == Lit(<<BSlash, ch>>)
UEsc == Seq2(<<Lit(<<BSlash, 117, 123>>), Opt(Alt(<<Lit(<<48, 120>>), C(48)>>)), Plus(S(<<<<97, 102>>, Digit>>)), C(125)>>)
\* any character except BEL TAB LF VT FF CR backslash quote (digits are listed apart in the code: same set)
StrChar == NS(<<<<7, 7>>, <<9, 13>>, <<BSlash, BSlash>>, <<Quote, Quote>>>>)
StringLit == Seq2(<<C(Quote), Star(Alt(<<StrChar, Esc(BSlash), Esc(Quote), Esc(97), Esc(100), Esc(110), Esc(114), Esc(116),
                                        Esc(102), Esc(118), UEsc>>)), C(Quote)>>)
RegularLit == Seq2(<<C(Slash), Plus(Alt(<<Lit(<<BSlash, Slash>>), NS(<<<<Slash, Slash>>>>)>>)), C(Slash)>>)

V1Pats == << RuleRef, TokenRef, Colon, C(59), C(124), Epsilon, C(42), C(43), C(63), C(40), C(41), StringLit, RegularLit,
             Plus(S(<<<<32, 32>>, <<13, 13>>, <<10, 10>>, <<9, 9>>, <<12, 12>>>>)) >>
V1Names == << "RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN",
              "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE" >>
V1Skip == {15}

LineComment == Seq2(<<Lit(<<Slash, Slash>>), LStar(NS(<<<<10, 10>>>>)), C(10)>>)
BlockComment == Seq2(<<Lit(<<Slash, 42>>), LStar(NS(<<>>)), Lit(<<42, Slash>>)>>)
BootPats == << LineComment, BlockComment, Plus(S(<<<<32, 32>>, <<9, 10>>, <<13, 13>>>>)),
               Lit(<<102, 114, 97, 103, 109, 101, 110, 116>>), TokenRef, RuleRef, Colon, C(124), C(59), C(42), C(43), C(63),
               C(46), C(126), C(40), C(41), C(35), StringLit, Lit(<<46, 46>>), RegularLit, Epsilon >>
BootNames == << "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF", "RULE_REF", "COLON", "OR", "SEMI", "STAR",
                "PLUS", "QUESTION", "DOT", "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON" >>
BootSkip == {2, 3, 4}
=============================================================================
