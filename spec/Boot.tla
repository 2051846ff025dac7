-------------------------------- MODULE Boot --------------------------------
(* The bootstrapped front end: the grammar language described in itself,     *)
(* numbered and rewritten by the tool chain (Ebnf), its table (CFG), its     *)
(* patterns (Patterns), and the composed machine text -> tokens -> tree      *)
(* (Front).                                                                  *)
EXTENDS Ebnf, Front, Patterns
El_(k, nm, as, sf) == [k |-> k, n |-> nm, alts |-> as, s |-> sf, z |-> FALSE]
T_(nm) == El_("T", nm, <<>>, "")
N_(nm) == El_("N", nm, <<>>, "")
Def(nm, as) == [k |-> "P", n |-> nm, alts |-> as, re |-> ""]
Language ==
  << Def("rule_list", << <<El_("B", "", << <<N_("parser_rule")>>, <<N_("lexer_rule")>> >>, "*")>> >>),
     Def("parser_rule", << <<T_("RULE_REF"), T_("COLON"), N_("block"), T_("SEMI")>> >>),
     Def("block", << <<N_("alternative"), El_("B", "", << <<T_("OR"), N_("alternative")>> >>, "*")>> >>),
     Def("alternative", << <<N_("element"), El_("N", "element", <<>>, "*")>>, <<N_("epsilon")>> >>),
     Def("epsilon", << <<T_("EPSILON")>> >>),
     Def("element", << <<El_("B", "", << <<T_("TOKEN_REF")>>, <<T_("STRING_LITERAL")>>, <<T_("RULE_REF")>>,
                                         <<T_("LPAREN"), N_("block"), T_("RPAREN")>> >>, ""), El_("N", "ebnf_suffix", <<>>, "?")>> >>),
     Def("ebnf_suffix", << <<El_("B", "", << <<T_("STAR")>>, <<T_("PLUS")>>, <<T_("QUESTION")>> >>, ""), El_("T", "QUESTION", <<>>, "?")>> >>),
     Def("lexer_rule", << <<T_("TOKEN_REF"), T_("COLON"), N_("regular"), T_("SEMI")>> >>),
     Def("regular", << <<T_("REGULAR_LITERAL")>> >>) >>
  \o [i \in 1..Len(V1Names) |-> [k |-> "L", n |-> V1Names[i], re |-> "", alts |-> <<>>]]
LP == TLCEval(Built(Language).P)
LNames == [i \in 1..Len(RuleDefs(Language)) |-> RuleDefs(Language)[i].n]    \* rule i-1
LangRules == 0..(Len(LNames) - 1)
LN == LangRules \cup NtsOf(LP)
LHelpers == LN \ LangRules
LCands == LET nul == TLCEval(Nullable(LP))  F == TLCEval(First(LP, LN)) IN TLCEval(Cands(LP, nul, F, TLCEval(FollowOf(LP, LN, nul, F))))
LTab == LET cs == TLCEval(LCands) IN TLCEval([x \in {<<d[1], d[2]>> : d \in cs} |-> (CHOOSE d \in cs : <<d[1], d[2]>> = x)[3]])
\* the description is LL(1), and its numbers are the ones the lexer's pattern list assumes
LanguageOK == /\ LL1F(LCands) /\ Len(V1Names) = Len(V1Pats)
              /\ \A i \in 1..Len(V1Names) : TokId(Language, V1Names[i]) = i + 1

bvars == fvars
\* T, un: the language's table and helpers (LTab, LHelpers; TLC evaluates them once per initial set)
BootInit(t, T, un) == FrontInit(t, <<>>, T, un)
BootView(x) == [ty |-> x.ty, tx |-> x.tx]
BootNext == FrontLex(V1Pats, V1Skip, BootView) \/ FrontStart(V1Pats) \/ FrontParse
=============================================================================
