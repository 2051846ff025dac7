#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py --replay FILE | check.py --setup"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Check, ToolError, log

MODULES = {}
for name in ("c_analysis", "c_vocab", "c_ebnf", "c_parse", "c_lex", "c_trees", "c_serde", "c_draw", "c_boot", "c_strlit", "c_front"):
    try:
        m = importlib.import_module(name)
    except ModuleNotFoundError as e:
        if e.name != name:
            raise
        continue
    MODULES.update(m.CHECKS)


def main(a):
    if a and a[0] == "--setup":
        vlib.build()
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        ck = Check(r["property"], "replay", 1)
        fn = MODULES[r["property"]]
        proj = getattr(fn, "project", {}).get(r["mode"])
        obsf = getattr(fn, "observe", {}).get(r["mode"])
        ck.conform(r["mode"], r["module"], [r["case"]], project=proj, env=r["env"], cfg=r.get("cfg", vlib.TR_CFG), obs=obsf(ck, [r["case"]]) if obsf else None)
        return ck.finish()
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(pid, tier, seed)
    try:
        MODULES[pid](ck)
        return ck.finish()
    except ToolError as e:
        log("TOOL ERROR:", e)
        if ck.viol:  # what was seen before the tool gave up still counts
            return ck.finish()
        ck.work.close()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
