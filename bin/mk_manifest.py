#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC: model check + trace validation of the real code against the specification"
N = {
 "C01": "Analysis.tla/CFG.tla: textbook fixpoints, model-checked equal to derivation-based definitions on all small grammars; every recorded FIRST/flag of the real code on exhaustive small and random grammars, under several hash orders, must equal them.",
 "C02": "As C01, for the FOLLOW equations' least solution.",
 "C03": "As C01, for the prediction table and the conflict report (captured stdout).",
 "C04": "Vocabulary.tla: the naming relation as a state machine; exhaustive short and random long histories of registrations are replayed, every lookup after every step must be what the state says.",
 "C05": "Ebnf.tla: meaning of EBNF and the rewriting machine, model-checked language-preserving; recorded productions must denote the same token and symbol words (bounded) as the EBNF.",
 "C06": "Ebnf.tla numbering; recorded tables, lexical records and reports must be those of the specification.",
 "C07": "LL1Parser.tla as a machine, model-checked sound and complete against CFG; the recorded result on every sentence must be the specified tree, also for every rule entry point of the bootstrapped parser.",
 "C08": "LL1Parser.tla; non-sentences: recorded outcome (tree, refusal, report) must be one the machine allows.",
 "C09": "Lexer.tla as a machine over code points; every recorded scan step must be a step of it (positions and end marker).",
 "C10": "Lexer.tla + Patterns.tla: longest match and priority over the declared pattern list, for both lexers and for the channel scan.",
 "C11": "Lexer.tla over random lexical rule sets; the lexer rendered from the template is compiled and its scans must be the machine's.",
 "C12": "Traverse.tla walk machine; recorded listener events must be its event sequence.",
 "C13": "Traverse.tla visit machine; recorded handler calls, combinations and results must be its behaviour.",
 "C14": "TreeQuery.tla; recorded answers of all child queries and typed accessors must equal the specified selection.",
 "C15": "TreeQuery.tla; recorded start/stop tokens and source texts must span the leaves.",
 "C16": "SerdeAst.tla + JsonText.tla; recorded load results (value, error, panic) must be the specified ones.",
 "C17": "Page.tla: HTML script and JavaScript template string reading; the written page is evaluated by node and read by the specification, both must give the tree.",
 "C18": "TR_Show: recorded printed forms must be the specified text.",
 "C19": "Ebnf.tla + CFG.tla + LL1Parser.tla composed: recorded end-to-end results must agree with the EBNF's meaning.",
 "C20": "Boot.tla: the grammar language's self description, its table and the composed lexer/parser machine; written texts must be read back as their tree.",
 "C21": "Literals.tla: literal denotation, numbering; recorded records and probe matches must be the specified ones.",
 "C23": "Front.tla: lexer, channel filter and parser machines composed, model-checked against EBNF and CFG meaning; generated lexers are compiled, run with the parser of the same tree, and each recorded reading must be the machine's run.",
 "C22": "PageFile.tla: file writing under faults; writes are intercepted and faulted by script, recorded outcome and file content must be allowed.",
}
NOTE = " Bounded: exhaustive at small scope, seeded random beyond; trusts TLC, the Rust harness that records and the Python projection."
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup",
  "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
              "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "model_checking", "level_note": N[p] + NOTE} for p in sorted(N)],
  "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
