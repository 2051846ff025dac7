"""C20: the bootstrapped front end. spec/Boot, MC_Boot, TR_Boot."""
import copy, json
import gen_boot as gb
import c_lex
from vlib import flat

SHIPPED = "src/tool/syntaxis/syntaxis2.json"
cps = lambda s: [ord(ch) for ch in s]
CFG = "CONSTANT KeyById = FALSE\nSPECIFICATION TrSpec\nVIEW PathView\nCHECK_DEADLOCK FALSE\n"
MC = "CONSTANTS KeyById = FALSE\n Big = %s\nSPECIFICATION MCSpec\nINVARIANT ReadBack\nPROPERTY Ends_\nCHECK_DEADLOCK FALSE\n"


def p_text(c, o):
    o = copy.deepcopy(o)
    if o["r"] == "ok" and o["v"]["res"] == "ok":
        o["v"] = {"res": "ok", "at": "", "rep": o["v"]["rep"], "tree": [dict(x, tx=cps(x["tx"])) if "tx" in x else x for x in flat(o["v"]["tree"])]}
    return {"case": {"text": c["text"]}, "obs": o}


def p_const(c, o):
    if o["r"] == "ok":
        o = copy.deepcopy(o)
        for k in ("prods", "table"):
            o["v"].pop(k)
        for d in o["v"]["data"]:
            d.pop("re")
        for x in o["v"]["nts"]:
            x.pop("by", None)
    return {"case": {"probes": c["probes"]}, "obs": o}


def text(rng, size):
    g = gb.G(rng, big=size > 8)
    return g.layout(g.rule_list(size))


def C20(ck):
    out = ck.work.path("mc")
    ck.model("MC_Boot", MC % ("TRUE" if ck.thorough else "FALSE"), {"MC_OUT": out})
    small = [json.loads(l) for l in open(out)]
    rng = ck.rng()
    rng.shuffle(small)
    ck.notes["exhaustive_small_texts"] = len(small)
    texts = small[:250] if not ck.thorough else small[:4000]
    for i in range(220 if not ck.thorough else 3000):
        texts.append(cps(text(rng, rng.choice([0, 1, 1, 2, 3] if not ck.thorough else [0, 1, 2, 3, 5]))))
    for i in range(220 if not ck.thorough else 3000):
        s = text(rng, rng.choice([1, 1, 2, 3]))
        for _ in range(rng.choice([1, 1, 2])):
            s = gb.broken(rng, s)
        texts.append(cps(s))
    for i in range(5 if not ck.thorough else 40):
        texts.append(cps(text(rng, 7 if not ck.thorough else 12)))
    d = 110 if not ck.thorough else 270
    deep = "aa:" + "(" * d + "Tok" + ")*" * d + ";"
    texts += [cps(x) for x in ("", " \n", "aa:bb", "aa:;", "aa:bb;;", "aa:bb; ;", ";", "aa:bb;@", "@", "aa:ε ε;", "aa:bb ε;", "aa:(;", "Aa:bb;", "aa:/x/;", "Aa:/x/", "aa:epsilon;", "aa:b;",
                               "aa:bb**;", "aa:bb+?*;", "aa:bb???;", "aa:();", "aa:(ε);", "aa:(ε|bb)?;", "aa:|bb;", "aa:bb|;", "aa::bb;", "aa::=bb;", "aa->bb;aa=>cc;", "aa:'x'*'y'+?;", "Aa:/\\//;", "Aa:/x/*;",
                               "aa:bb;\nBb:/b/;cc:dd;", "aa:bb\x0b;", "aa:bb;\u00a0", "aa:bb_ cc9;", "aa:_b;", "aa:Bb'x'cc;", deep, deep[:-1], "aa:" + "|".join(["bb"] * 40) + ";")]
    odd = [c for c in list(range(256)) + c_lex.MORE if not chr(c).isalnum() or c > 127]
    texts += [cps(a) + [c] + cps(b) for a, b in (("aa:", ";"), ("aa:bb", "cc;")) for c in odd]
    cases = [{"text": t, "file": SHIPPED, "entry": 0} for t in texts]
    ck.conform("boottext", "TR_Boot", cases, project=p_text, env={"TR_WANT": "text"}, cfg=CFG, group="texts")
    probes = [cps(x) for x in c_lex.FRAGS + gb.RN + gb.TN + gb.SL + gb.RL + gb.COL + gb.WS] + [c_lex.rand_text(rng, rng.choice([2, 5, 9])) for _ in range(300 if not ck.thorough else 5000)]
    probes += [cps(gb.broken(rng, x)) for x in (gb.SL + gb.RL + gb.RN + gb.TN) * 3]
    ck.conform("frontend", "TR_Boot", [{"file": SHIPPED, "probes": probes}], project=p_const, env={"TR_WANT": "const"}, cfg=CFG, group="constants")


C20.project = {"boottext": p_text, "frontend": p_const}
CHECKS = {"C20": C20}
