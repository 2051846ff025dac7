"""C12 walk, C13 visit, C14 queries, C15 spans, C18 printing. spec/Tree, Traverse, TreeQuery, MC_Trees, TR_*."""
import copy, json
import gen_boot as gb
import gen_grammar as gg
import gen_tree as gt
from vlib import flat

MC = """CONSTANTS MaxN = %d
Job = "%s"
ExportN = %d
SPECIFICATION MCSpec
INVARIANTS WalkOk VisitOk QueryOk
%s
CHECK_DEADLOCK FALSE
"""
cps = lambda s: [ord(ch) for ch in s]


def jittered(rng, ts):
    """what a token carries apart from its type does not matter, nor how a node is called"""
    for t in ts:
        if rng.random() < .5:
            gt.jitter(rng, t)
    return ts


def model(ck, job, n, export):
    out = ck.work.path("mc")
    ck.model("MC_Trees", MC % (n, job, export, "" if job == "query" else "PROPERTY Halts"), {"MC_OUT": out}, timeout=3000, heap="12g")
    return [gt.from_flat(json.loads(l)) for l in open(out)]


def randoms(rng, n, **kw):
    out = []
    for i in range(n):
        out.append(gt.tree(rng, rng.choice([2, 5, 9, 15, 25, 40]), **kw))
    return out


def scale(rng, wide=260, deep=1100):
    return [gt.chain(rng, 50), gt.chain(rng, deep), gt.node(0, [gt.leaf(rng) for _ in range(wide)]), gt.node(2, [gt.node(3, [gt.node(5, [gt.leaf(rng)])]) for _ in range(wide // 4)])]


# ---- C12, C13 ------------------------------------------------------------------------------
def p_walk(c, o):
    return {"case": {"tree": flat(c["tree"])}, "obs": o}


def p_visit(c, o):
    o = copy.deepcopy(o)
    if o["r"] == "ok":
        for f in ("old", "v1"):
            for x in [o["v"][f][k] for k in ("leaf", "rec", "full", "fold", "bare")] + [y["o"] for y in o["v"][f]["typed"]]:
                x["ev"] = [e for e in x["ev"] if e[0] != "ask"]
    return {"case": dict(c, tree=flat(c["tree"])), "obs": o}


def C12(ck):
    ts = model(ck, "walk", 4 if not ck.thorough else 5, 3 if not ck.thorough else 4)
    ck.notes["exhaustive_small_trees"] = len(ts)
    rng = ck.rng()
    ts += [gt.node(i, [gt.node(j, [gt.leaf(rng, 0)])]) for i in range(10) for j in range(10)]
    ts += randoms(rng, 400 if not ck.thorough else 6000) + scale(rng)
    ck.conform("walk", "TR_Traverse", [{"tree": t} for t in jittered(rng, ts)], project=p_walk, env={"TR_WANT": "walk"})


def C13(ck):
    ts = model(ck, "visit", 3 if not ck.thorough else 5, 3 if not ck.thorough else 4)
    ck.notes["exhaustive_small_trees"] = len(ts)
    rng = ck.rng()
    ts += [gt.node(i, [gt.node(j, [gt.leaf(rng, 0)]), gt.leaf(rng)]) for i in range(10) for j in range(10)]
    ts += randoms(rng, 300 if not ck.thorough else 5000) + scale(rng, 270, 540 if not ck.thorough else 1100)
    cases = []
    for t in jittered(rng, ts):
        n = gt.count(t)
        pick = lambda p, m: sorted(rng.sample(range(1, n + 1), min(n, rng.randint(1, m)))) if rng.random() < p else []
        cases.append({"tree": t, "prune": sorted(rng.sample(range(10), rng.randint(1, 3))) if rng.random() < .4 else [], "stop": pick(.5, 3), "stopn": pick(.3, 2) + [-x for x in pick(.25, 2)] + ([-1] if rng.random() < .05 else [])})
    ck.conform("visit", "TR_Traverse", cases, project=p_visit, env={"TR_WANT": "visit"})


# ---- C14 -----------------------------------------------------------------------------------
def strnum(t):
    """numbers as strings: usize does not fit TLC's integers"""
    if t["k"] == "R":
        return {"k": "R", "ix": str(t["ix"]), "nm": t["nm"], "ch": [strnum(x) for x in t["ch"]]}
    return {"k": t["k"], "t": {"ty": str(t["t"]["ty"])}}


def p_query(c, o):
    if o["r"] == "ok":
        o = dict(o, v=dict(o["v"], ix=str(o["v"]["ix"])))
    return {"case": {"tree": flat(strnum(c["tree"]))}, "obs": o}


def p_boot(c, o):
    o = copy.deepcopy(o)
    if o["r"] == "ok" and o["v"]["res"] == "ok":
        o["v"]["tree"] = [x if x["k"] == "R" else {"k": x["k"], "t": {"ty": str(x["ty"]), "nm": x["nm"], "tx": x["tx"]}} for x in flat(o["v"]["tree"])]
        for x in o["v"]["tree"]:
            if x["k"] == "R":
                x["ix"] = str(x["ix"])
    return {"case": c, "obs": o}


ULL = "18446744073709551615"


def query_trees(rng, n):
    out = []
    for i in range(n):
        # a node with many children of mixed kinds and colliding numbers
        m = rng.choice([0, 1, 2, 4, 8, 15])
        tys = list(range(0, 24)) if rng.random() < .6 else [1, 2, ULL, "4294967298", "18446744073709551614"]
        ch = []
        for _ in range(m):
            x = rng.random()
            ty = rng.choice(tys)
            if x < .45:
                ch.append({"k": "T", "t": gt.tok(ty)})
            elif x < .6:
                ch.append({"k": "E", "t": gt.tok(ty)})
            else:
                ch.append(gt.node(rng.choice(list(range(10)) + [ty]), [{"k": "T", "t": gt.tok(rng.choice(tys))} for _ in range(rng.randint(0, 2))]))
        if ch and rng.random() < .4:
            ch += [copy.deepcopy(rng.choice(ch)) for _ in range(rng.randint(1, 4))]
        out.append(gt.node(rng.choice(list(range(10)) + [ULL]), ch))
    return out


def C14(ck):
    ts = model(ck, "query", 4 if not ck.thorough else 5, 3 if not ck.thorough else 4)
    rng = ck.rng()
    ts += query_trees(rng, 900 if not ck.thorough else 8000)
    ts += [gt.node(0, [rng.choice([gt.leaf(rng), gt.node(rng.randrange(9), [gt.leaf(rng)])]) for _ in range(300)]) for _ in range(2)]
    jittered(rng, ts)
    cases = [{"tree": t, "tys": list(range(0, 24)) + [77, ULL, "4294967298", "18446744073709551614"]} for t in ts]
    ck.conform("query", "TR_Query", cases, project=p_query, env={"TR_WANT": "query"})
    # every kind of child alone and twice, for each accessor of both front ends
    cases = [{"text": cps(gb.piece(rng, e)), "file": "src/tool/syntaxis/syntaxis2.json", "entry": e} for e in range(9) for _ in range(25 if not ck.thorough else 200)]
    obs = ck.conform("boottext", "TR_Query", cases, project=p_boot, env={"TR_WANT": "views"}, group="typed_views")
    ck.notes["typed_views_of_parsed_texts"] = sum(1 for o in obs if o and o["r"] == "ok" and o["v"]["res"] == "ok")


# ---- C15 -----------------------------------------------------------------------------------
def p_span(c, o):
    return {"case": {"tree": flat(c["tree"]), "input": c["input"]}, "obs": o}


def C15(ck):
    ts = model(ck, "query", 4 if not ck.thorough else 5, 4 if not ck.thorough else 5)
    rng = ck.rng()
    ts += randoms(rng, 400 if not ck.thorough else 5000, empty=.45) + randoms(rng, 100, empty=.9) + randoms(rng, 100, empty=.3, err=0)
    ts += [gt.chain(rng, d) for d in (50, 140, 280, 300 if not ck.thorough else 1000)] + [gt.node(0, [gt.leaf(rng) for _ in range(300)])]
    for d in (1, 3, 30, 150):  # empty sub-rules nested at either edge
        e = gt.node(3, [])
        for _ in range(d):
            e = gt.node(4, [e])
        ts += [gt.node(0, [copy.deepcopy(e), gt.leaf(rng, 0), copy.deepcopy(e)]), gt.node(0, [gt.node(1, [copy.deepcopy(e), gt.leaf(rng, 1), copy.deepcopy(e), gt.leaf(rng, 0), copy.deepcopy(e)])]), gt.node(0, [copy.deepcopy(e)] * 3)]
    cases = []
    for k, t in enumerate(ts):
        t = json.loads(json.dumps(t))
        cases.append({"input": gt.locate(rng, t, k % 3 == 2, rng.choice([0, 0, .3, .8])), "tree": t})
    ck.conform("span", "TR_Query", cases, project=p_span, env={"TR_WANT": "span"})


# ---- C18 -----------------------------------------------------------------------------------
def strtok(t):
    return {k: (v if k in ("nm", "tx") else str(v)) for k, v in t.items()}


def p_show(c, o):
    def s(t):
        return dict(t, ch=[s(x) for x in t["ch"]]) if t["k"] == "R" else {"k": t["k"], "t": strtok(t["t"])}
    return {"case": {"tree": flat(s(c["tree"]))}, "obs": o}


def p_disp(c, o):
    if o["r"] == "ok":
        o = dict(o, v={"lines": o["v"]["text"].split("\n")})
    return {"case": c, "obs": o}


STR = ["x", "", "a b", "é田", "(", ")", "->", "'", "{}", "{0}", "%s", "\\n", "\"", "ID", "a;", "\U0001f600", " a", "a ", " ", "\t", "a\t", "\u00a0", "a\u3000", "Aa", "a'", "<", ">", "x>"]


def C18(ck):
    ts = model(ck, "query", 4 if not ck.thorough else 5, 3)
    rng = ck.rng()
    ts += randoms(rng, 300 if not ck.thorough else 4000) + scale(rng)
    cases = []
    for t in ts:
        t = json.loads(json.dumps(t))
        for l in gt.leaves(t):
            l["t"] = {"ty": rng.choice([0, 1, 7, ULL]), "nm": rng.choice(STR), "tx": rng.choice(STR + ["a\nb"]), **{k: rng.choice([0, 1, 5, 12, 4294967296, ULL]) for k in ("sl", "sc", "el", "ec", "chn", "ti", "cs", "ce")}}

        def nm(x):
            if x["k"] == "R":
                x["nm"] = rng.choice(STR + [x["nm"]])
                for y in x["ch"]:
                    nm(y)
        nm(t)
        cases.append({"tree": t})
    ck.conform("show", "TR_Show", cases, project=p_show, env={"TR_WANT": "tree"}, group="trees")
    cases = []
    for i in range(400 if not ck.thorough else 5000):
        nn, nt = rng.randint(1, 6), rng.randint(1, 6)
        nts = [{"id": a, "nm": "" if a and rng.random() < .35 else "n%s%d" % (rng.choice(["", "_", "X", "é"]), a)} for a in range(nn)]
        if rng.random() < .3:  # names that run together ambiguously, and names that look like numbers
            for k, x in enumerate(rng.sample(["aa", "a", "aaa", "b", "ab", "12", "T", "aT"], 8)):
                if k < nn and nts[k]["nm"]:
                    nts[k]["nm"] = x
        tn = rng.sample(["T", "TT", "aT", "STOP", "'+'", "';'", "->", "ε", "Aa", "T_2"], nt)
        ts_ = [{"id": i + 2, "nm": x} for i, x in enumerate(tn)]
        sy = [["N", a["id"]] for a in nts] + [["T", t["id"]] for t in ts_]
        prods = gg.dedup([{"l": rng.randrange(nn), "r": [rng.choice(sy) for _ in range(rng.choice([0, 1, 2, 3, 6]))]} for _ in range(rng.randint(0, 10))])
        if rng.random() < .35:  # symbols that look the same, and productions that differ only in them
            a = rng.randrange(nn)
            un = [x["id"] for x in nts if not x["nm"]]
            if un and rng.random() < .5:
                b = ["N", rng.choice(un)]
                look = str(b[1])
                if rng.random() < .5:
                    a = None
                    ts_[0]["nm"] = look
                elif nts[a]["nm"]:
                    nts[a]["nm"] = look
            else:
                b, look = ["T", ts_[0]["id"]], ts_[0]["nm"]
                if all(y["nm"] != look for y in nts):
                    nts[a]["nm"] = look
            x = ["T", ts_[0]["id"]] if a is None else ["N", a]
            for p in [dict(p) for p in prods] + [{"l": 0, "r": [x]}]:
                q = [b if y == x else x if y == b else y for y in p["r"]]
                prods += [p, {"l": p["l"], "r": q}]
                if x[0] == b[0] == "N":
                    prods.append({"l": b[1] if p["l"] == x[1] else x[1] if p["l"] == b[1] else p["l"], "r": q})
            prods = gg.dedup(prods)
        cases.append({"nts": nts, "ts": ts_, "prods": prods})
    ck.conform("display", "TR_Show", cases, project=p_disp, env={"TR_WANT": "grammar"}, group="grammars")


C12.project = {"walk": p_walk}
C13.project = {"visit": p_visit}
C14.project = {"query": p_query, "boottext": p_boot}
C15.project = {"span": p_span}
C18.project = {"show": p_show, "display": p_disp}
CHECKS = {"C12": C12, "C13": C13, "C14": C14, "C15": C15, "C18": C18}
