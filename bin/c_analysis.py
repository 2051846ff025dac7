"""C01 FIRST, C02 FOLLOW, C03 prediction table: spec/CFG.tla, spec/Analysis.tla."""
import json, os
import gen_grammar as gg

MC = """CONSTANTS MCN = {0, 1}
MCT = {2, 3}
MaxR = %d
MaxP = %d
Orders = %s
SPECIFICATION MCSpec
INVARIANTS FirstSound FirstExact FollowSound FollowExact TableOK DerivationsAgree CountAgrees
PROPERTY Termination
CHECK_DEADLOCK FALSE
"""


def run(want):
    def go(ck):
        out = ck.work.path("mc.ndjson")
        ck.model("MC_Analysis", MC % (2, 2, "TRUE"), {"MC_OUT": out})
        if ck.thorough:
            ck.model("MC_Analysis", MC % (1, 4, "TRUE"), timeout=3000, heap="12g")
            out = ck.work.path("mc.ndjson")
            ck.model("MC_Analysis", MC % (2, 3, "FALSE"), {"MC_OUT": out}, timeout=3000, heap="12g")
        cases = []
        for line in open(out):
            p = json.loads(line)["prods"]
            p = [{"l": x["l"], "r": [list(s) for s in x["r"]]} for x in p]
            cases.append({"nts": [{"id": 0, "nm": "n0"}, {"id": 1, "nm": "n1"}], "ts": [{"id": 2, "nm": "A"}, {"id": 3, "nm": "B"}],
                          "prods": p, "reps": 3})
        ck.notes["exhaustive_small_grammars"] = len(cases)
        rng = ck.rng()
        n, big = (600, 6) if not ck.thorough else (8000, 60)
        cases += gg.analysis_cases(rng, n, big)
        ck.conform("analyse", "TR_Analysis", cases, env={"TR_WANT": want})
        ck.assumptions += ["well-formed grammars: start nonterminal 0 exists and every nonterminal used is registered"]
    return go


CHECKS = {"C01": run("first"), "C02": run("follow"), "C03": run("table")}
