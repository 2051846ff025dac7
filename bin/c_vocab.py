"""C04 symbol table: spec/Vocabulary.tla."""
import json

MC = """CONSTANTS Id0 = "0"
Id1 = "1"
MCIds = {"0", "1", "2", "3"}
MCNames = {"_STOP", "a", "b"}
HistLen = %d
SPECIFICATION MCSpec
INVARIANTS Consistent LookupsInverse
PROPERTIES OnlyGrows Refuse
CHECK_DEADLOCK FALSE
"""
TR = 'CONSTANTS Id0 = "0"\nId1 = "1"\nSPECIFICATION TrSpec\nCHECK_DEADLOCK FALSE\n'
BIG = "18446744073709551615"


def with_probes(ops, extra_ids=(), extra_names=()):
    ids = sorted({o["id"] for o in ops} | {"0", "1"} | set(extra_ids))
    names = sorted({o["nm"] for o in ops} | {"_START", "_STOP"} | set(extra_names))
    return {"ops": ops, "ids": ids, "names": names}


def C04(ck):
    out = ck.work.path("mc.ndjson")
    ck.model("MC_Vocab", MC % 2, {"MC_OUT": out})
    cases = [with_probes(json.loads(l)["ops"], ["7"], ["zz"]) for l in open(out)]
    ck.notes["exhaustive_histories"] = len(cases)
    rng = ck.rng()
    for k in range(300 if not ck.thorough else 6000):
        ids = [str(i) for i in range(rng.randint(2, 6))] + rng.choice([[], [BIG], ["4294967296", "0"]])
        # close relatives of one name: blanks, case, accents, prefixes, lengths
        b = rng.choice(["a", "stat", "x_y", "T1", "_STOP", "é", "语", "'+'", "q" * 300])
        rel = [b + " ", " " + b, b + "\n", b + "\t", b.upper(), b.lower(), b + "_", b[:-1], b + b, b + "1", "\ufeff" + b, b + "\u0301", b + "\u0000", "'" + b + "'", b]
        names = rng.sample(rel, rng.randint(2, 6)) if k % 2 else rng.sample(["a", "b", "A", "", "_STOP", "_START", "0", "1", "2", "é", "x y", "ab", "_stop"], rng.randint(2, 6))
        ops = []
        for _ in range(rng.randint(3, 25)):
            o = rng.choice("ttnnu")
            ops.append({"op": o, "id": rng.choice(ids), "nm": "" if o == "u" else rng.choice(names)})
        cases.append(with_probes(ops, ["9"], ["nope"]))
    for k in range(2 if not ck.thorough else 12):  # long histories
        ops = []
        for i in range(120):
            o = rng.choice("tnu")
            ops.append({"op": o, "id": str(rng.randrange(150)), "nm": "" if o == "u" else "s%d" % rng.randrange(150)})
        cases.append(with_probes(ops))
    ck.conform("vocab", "TR_Vocab", cases, cfg=TR)


CHECKS = {"C04": C04}
