"""C05 rewriting, C06 numbering, C19 end to end: spec/Ebnf.tla."""
import json, re
import gen_ebnf as ge
from vlib import flat

MC = """CONSTANTS KeyById = %s
Deep = %s
K = 4
SPECIFICATION MCSpec
INVARIANTS Preserved HelpersFresh Functional DefsAgree PDefsAgree ShortestOK
CHECK_DEADLOCK FALSE
"""
TR = "CONSTANTS KeyById = FALSE\nSPECIFICATION TrSpec\nCHECK_DEADLOCK FALSE\n"


def cps(s):
    return [ord(ch) for ch in s]


def models(ck):
    out = ck.work.path("mc.ndjson")
    ck.model("MC_Ebnf", MC % ("FALSE", "TRUE" if ck.thorough else "FALSE"), {"MC_OUT": out}, timeout=3000)
    ck.model_refutes("MC_Ebnf", MC % ("TRUE", "FALSE"))
    return [json.loads(l)["rules"] for l in open(out)]


def project_num(c, o):
    """Patterns as code points (the specification unescapes them)."""
    c = json.loads(json.dumps(c))
    for r in c["rules"]:
        r["re"] = cps(r["re"])
    c.setdefault("ft", 2)
    c.setdefault("fr", 0)
    c.setdefault("pre", [])
    c.setdefault("lang", False)
    if o["r"] == "ok":
        o = json.loads(json.dumps(o))
        for d in o["v"].get("data", []) + o["v"]["lr"].get("data", []):
            d["re"] = cps(d["re"])
    return {"case": c, "obs": o}


def C05(ck):
    cases = [ge.case(r) for r in models(ck)]
    if not ck.thorough:
        cases = cases[::2]
    ck.notes["exhaustive_small_grammars"] = len(cases)
    rng = ck.rng()
    n = 350 if not ck.thorough else 4500
    for i in range(n):
        x = i % 7
        if x == 0:
            g = ge.collide(rng)
        elif x == 1:
            g = ge.repeats(rng)
        elif x == 6:
            g = ge.sheet(rng)
        elif x == 2:
            g = ge.nested(rng, rng.randint(1, 10) if i % 49 != 2 else 28)
        elif x == 3:
            g = ge.grammar(rng, rng.randint(1, 2), rng.randint(1, 2), 2)
        else:
            g = ge.grammar(rng, rng.randint(1, 5), rng.randint(1, 5), rng.randint(0, 3), na=2, ne=3)
        if i % 4 == 1:
            g = ge.literalise(rng, g)
        cases.append(ge.case(g))
    for i in range(4 if not ck.thorough else 30):
        cases.append(ge.case(ge.grammar(rng, rng.randint(15, 30), rng.randint(12, 30), 2, na=2, ne=3)))
    ck.conform("build", "TR_Ebnf", cases, env={"TR_WANT": "lang"}, cfg=TR, timeout=60)
    ck.assumptions += ["language equality is decided for words up to the bounds k (tokens) and ks (symbols of a rule body) recorded with each case"]


PATS = ["/a/", "/[a-z]+/", "/\\//", "/a\\/b/", "/\\\\/", "/\\\\\\/x/", "/[^\\/]*/", "/(x|y)/", "/x|y/", "/é+/", "/\\/\\//", "/\\d+/", "/ /", "//", "/ a /", "/\t/", "/" + "\\/" * 9 + "/", "/" + "\\/x" * 40 + "/", "/" + "(a|b)" * 60 + "/"]


def C06(ck):
    small = models(ck)
    rng = ck.rng()
    cases = [ge.case(r) for r in (small if ck.thorough else rng.sample(small, 300))]
    n = 500 if not ck.thorough else 6000
    for i in range(n):
        big = i % 20 == 19
        g = ge.grammar(rng, rng.randint(20, 60) if big else rng.randint(1, 6), rng.randint(20, 60) if big else rng.randint(1, 8), 1, na=2, ne=3)
        for r in g:
            if r["k"] == "L":
                r["re"] = rng.choice(PATS) if rng.random() < .7 else "/%s/" % "".join(rng.choice("ab\\/.*|()é") for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 6, 30]))).rstrip("\\")
        if i % 3 == 1:
            g = ge.literalise(rng, g)
        toks = [r["n"] for r in g if r["k"] == "L"]
        rules = [r["n"] for r in g if r["k"] == "P"]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):  # repeated definitions anywhere after the first one
            if toks and rng.random() < .5:
                nm = rng.choice(toks)
                d = ge.L(nm, rng.choice(PATS))
            else:
                nm = rng.choice(rules)
                d = ge.P(nm, [[ge.E("T", rng.choice(toks)) if toks else ge.E("N", nm)]])
            at = next(j for j, r in enumerate(g) if r["n"] == nm)
            g.insert(rng.randint(at + 1, len(g)), d)
        if i % 5 == 2:
            g = ge.share_names(rng, g)
        kw = {}
        if i % 7 in (3, 5):  # other first numbers; records already there
            g = g if i % 7 == 3 else ge.grammar(rng, rng.randint(1, 5), rng.randint(1, 4), 2, na=2, ne=3)
            kw = {"ft": rng.choice([2, 3, 7, 40, 65536, 2 ** 30]), "fr": rng.choice([0, 1, 9, 70000])}
            kw["pre"] = [{"ty": rng.randint(2, 60), "nm": rng.choice(toks + ["T_2", "XX%d" % j] if toks else ["XX%d" % j]), "re": "^(z)"} for j in range(rng.randint(0, 3))]
            kw["lang"] = not big and len({r["n"] for r in g if r["k"] == "P"}) == len([r for r in g if r["k"] == "P"])
        cases.append(ge.case(g, **kw))
    cases.append(ge.case(ge.grammar(rng, 280, 290, 0, na=1, ne=2)))
    ck.conform("build", "TR_Ebnf", cases, project=project_num, env={"TR_WANT": "num"}, cfg=TR)


def p_pipe(c, o):
    if o["r"] == "ok" and o["v"]["res"] == "ok":
        o = dict(o, v=dict(o["v"], outs=[dict(x, tree=flat(x["tree"][0]) if x["tree"] else []) for x in o["v"]["outs"]]))
    return {"case": c, "obs": o}


def C19(ck):
    ck.model("MC_Ebnf", MC % ("FALSE", "TRUE" if ck.thorough else "FALSE"), timeout=3000)
    rng = ck.rng()
    cases = []
    for i in range(700 if not ck.thorough else 6000):
        g = ge.forms(rng) if i % 5 == 4 else ge.ll1(rng) if i % 3 == 0 else ge.ll1_rich(rng)
        if g is None or ge.shortest(g)[ge.first_rule(g)] is None:
            continue
        if i % 2 == 0:
            g = ge.stir(rng, g)
        if i % 4 == 1:
            g = ge.literalise(rng, g)
        ws = ge.inputs(rng, g, 8)
        if i % 5 == 4:  # every token of some sentences once more, and once less
            for w in [w for w in ws if 0 < len(w) < 12][:3]:
                ws += [v for j in range(len(w)) for v in (w[:j + 1] + w[j:], w[:j] + w[j + 1:]) if v not in ws]
        cases.append({"rules": g, "inputs": ws})
    # grammars that are not LL(1), or just so: a conflict is reported, or the parser is right
    for i in range(350 if not ck.thorough else 2500):
        g = ge.not_ll1(rng)
        if g is not None:
            cases.append({"rules": g, "inputs": ge.inputs(rng, g, 5, 10)})
    # a long sentence: lists of many items
    E, P, L = ge.E, ge.P, ge.L
    lst = [P("list", [[E("T", "LP"), E("N", "item", (), "*"), E("T", "RP")]]),
           P("item", [[E("T", "ID"), E("B", "", [[E("T", "EQ"), E("N", "item")], [E("T", "CM")]], "?")], [E("N", "list")]]),
           L("LP", "/l/"), L("ID", "/i/"), L("EQ", "/e/"), L("CM", "/c/"), L("RP", "/r/")]
    cases += list({"rules": lst, "inputs": [["LP"] * d + ["ID"] + ["RP"] * d, ["LP"] + ["ID", "CM"] * d + ["RP"], ["LP"] + ["ID", "EQ"] * d + ["ID", "RP"],
                                           ["LP"] * d + ["ID"] + ["RP"] * (d - 1), ["LP"] + ["ID", "CM"] * d]} for d in (9, 40 if not ck.thorough else 140))
    ck.conform("pipeline", "TR_Ebnf", cases, project=p_pipe, env={"TR_WANT": "e2e"}, cfg=TR, timeout=60)
    ck.notes["inputs"] = sum(len(c["inputs"]) for c in cases)


C06.project = {"build": project_num}
C19.project = {"pipeline": p_pipe}
CHECKS = {"C05": C05, "C06": C06, "C19": C19}
