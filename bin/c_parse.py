"""C07, C08: the table-driven parsers. spec/LL1Parser.tla."""
import gen_grammar as gg
from vlib import ToolError, flat

MC = """CONSTANTS MCN = {0, 1}
MCT = {2, 3}
MaxR = 2
MaxP = %d
MaxIn = %d
Helpers = %s
SPECIFICATION MCSpec
INVARIANTS Complete Sound Exact
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""

# the grammar language itself, 9 named rules and helpers
LANG_NAMES = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"]
RR, TR_, CO, SE, OR, EP, ST, PL, QU, LP, RP, SL, RL = range(2, 15)


def lang():
    N, T = (lambda i: ["N", i]), (lambda i: ["T", i])
    rules = {0: [[N(9)]], 9: [[N(10), N(9)], []], 10: [[N(1)], [N(7)]], 1: [[T(RR), T(CO), N(2), T(SE)]],
             2: [[N(3), N(11)]], 11: [[N(12), N(11)], []], 12: [[T(OR), N(3)]], 3: [[N(13)], [N(4)]],
             13: [[N(5), N(14)]], 14: [[N(5), N(14)], []], 4: [[T(EP)]], 5: [[N(15), N(16)]],
             15: [[T(TR_)], [T(SL)], [T(RR)], [T(LP), N(2), T(RP)]], 16: [[N(6)], []], 6: [[N(17), N(18)]],
             17: [[T(ST)], [T(PL)], [T(QU)]], 18: [[T(QU)], []], 7: [[T(TR_), T(CO), N(8), T(SE)]], 8: [[T(RL)]]}
    prods = [{"l": a, "r": r} for a in rules for r in rules[a]]
    return list(range(19)), list(range(2, 16)), prods, set(range(9, 19))


def mincost(prods, nts):
    W = {a: None for a in nts}
    ch = True
    while ch:
        ch = False
        for p in prods:
            t = 0
            for k, i in p["r"]:
                c = 1 if k == "T" else W[i]
                if c is None:
                    t = None; break
                t += c
            if t is not None and (W[p["l"]] is None or t < W[p["l"]]):
                W[p["l"]] = t; ch = True
    return W


def sentence(rng, prods, W, a, limit=40, depth=9):
    by = {}
    for p in prods:
        by.setdefault(p["l"], []).append(p)
    cost = lambda p: None if any(k == "N" and W[i] is None for k, i in p["r"]) else sum(1 if k == "T" else W[i] for k, i in p["r"])
    out, n = [], [0]

    def go(x, d):
        n[0] += 1
        ok = [p for p in by.get(x, []) if cost(p) is not None]
        if not ok:
            raise ValueError
        p = min(ok, key=cost) if d > depth or n[0] > 200 else rng.choice(ok)
        for k, i in p["r"]:
            if k == "T":
                out.append(i)
                if len(out) > limit:
                    raise ValueError
            else:
                go(i, d + 1)
    try:
        go(a, 0)
    except (ValueError, RecursionError):
        return None
    return out


def tok(rng, ty, i, style=0, say=None):
    if style == 3:  # text and name are those of some terminal, often another one
        return dict(tok(rng, ty, i), tx=rng.choice(say), nm=rng.choice(say), chn=rng.choice([0, 0, 1, 2]))
    if style == 1:  # equal tokens of a type are equal in every field
        return {"ty": ty, "nm": "T%d" % ty, "tx": "t%d" % ty, "sl": 0, "sc": 0, "el": 0, "ec": 0, "chn": 0, "ti": 0, "cs": 0, "ce": 0}
    if style == 2:  # only the index differs
        return {"ty": ty, "nm": "T%d" % ty, "tx": "x", "sl": 0, "sc": 0, "el": 0, "ec": 0, "chn": 0, "ti": i, "cs": 0, "ce": 0}
    return {"ty": ty, "nm": "T%d" % ty, "tx": rng.choice(["x", "", "ab", "é", "\n"]) + str(i), "sl": rng.randrange(5), "sc": rng.randrange(9),
            "el": rng.randrange(5), "ec": rng.randrange(9), "chn": rng.randrange(2), "ti": i, "cs": 3 * i, "ce": 3 * i + rng.randrange(3)}


def grammars(rng, n):
    out = [("lang",) + lang()]
    for k in range(n):
        if k % 6 == 5:
            g = lang()
            out.append(("lang",) + g)
            continue
        small = k % 6 < 2
        if k % 6 in (0, 3):
            g = gg.ll1_grammar(rng, rng.randint(1, 3) if small else rng.randint(3, 7), rng.randint(1, 3) if small else rng.randint(3, 8), 3, 4)
        else:
            g = gg.ll1_rich(rng, rng.randint(2, 3) if small else rng.randint(3, 7), rng.randint(2, 4) if small else rng.randint(5, 9))
        if g:
            nts, ts, prods = g
            un = {a for a in nts if a and rng.random() < .4}
            if k % 4 == 1:  # large numbers that are equal in their low parts
                m = {a: a * rng.choice([256, 65536]) for a in nts}
                u = {t: t * 65536 + 2 for t in ts}
                if len(set(m.values())) == len(nts):
                    nts, ts, un = [m[a] for a in nts], [u[t] for t in ts], {m[a] for a in un}
                    prods = [{"l": m[p["l"]], "r": [[x, m[i] if x == "N" else u[i]] for x, i in p["r"]]} for p in prods]
            out.append(("rnd", nts, ts, prods, un))
    return out


def parse_cases(rng, n, per, bad):
    cases = []
    for kind, nts, ts, prods, un in grammars(rng, n):
        prods = gg.dedup(prods)
        nul, F, W, table, ok = gg.sets(prods, nts)
        assert ok
        mc = mincost(prods, nts)
        tj = [{"a": a, "t": t, "p": p} for (a, t), p in sorted(table.items(), key=lambda x: x[0])]
        nt = [{"id": a, "nm": "" if a in un else LANG_NAMES[a] if kind == "lang" else "n%d" % a} for a in nts]
        base = {"nts": nt, "ts": [{"id": t, "nm": "T%d" % t} for t in ts], "prods": prods, "table": tj}
        if kind != "lang":
            gg.rename(rng, base, .45)
        named = [a for a in nts if a not in un]
        for j in range(per):
            entry = 0 if rng.random() < .5 else rng.choice(named)
            who = "ll1" if entry == 0 and rng.random() < .6 else "v1"
            if entry > 8:
                entry, who = 0, "ll1"
            w = sentence(rng, prods, mc, entry) if mc[entry] is not None else None
            if w is None:
                w = [rng.choice(ts) for _ in range(rng.randint(0, 4))]
            follow = sorted(W[entry]) or [1]
            end = [1] if 1 in follow and rng.random() < .8 else [rng.choice(follow)]
            if end != [1]:
                end = end + [rng.choice(ts) for _ in range(rng.randint(0, 1))]
                extra = 1
            x = rng.random()
            if x < bad:
                y = rng.random()
                if y < .25 and w:
                    del w[rng.randrange(len(w))]
                elif y < .5:
                    w.insert(rng.randint(0, len(w)), rng.choice(ts))
                elif y < .7 and w:
                    w[rng.randrange(len(w))] = rng.choice(ts)
                elif y < .8:
                    w = w[:rng.randint(0, len(w))]
                elif y < .9:
                    w = [rng.choice(ts + [99, 0]) for _ in range(rng.randint(0, 6))]
                elif len(w) > 1:
                    i = rng.randrange(len(w) - 1)
                    w[i], w[i + 1] = w[i + 1], w[i]
                end = [1]
            elif end != [1]:
                end = end[:1]
            style = rng.choice([0, 0, 1, 2, 3])
            say = [x["nm"] for x in base["ts"]] + ["_STOP"]
            if x < bad and w and rng.random() < .4:  # a token that calls itself what would have been right there
                say = [x["nm"] for x in base["ts"] if x["id"] in w] or say
            toks = [tok(rng, t, i, style, say) for i, t in enumerate(w + end)]
            inp = {"toks": toks, "who": who, "entry": entry, "m": entry == 0 and who == "v1" and rng.random() < .3}
            cases.append(dict(base, inputs=[inp]))
    return cases


def scale_cases(rng, big):
    """Long and deep inputs."""
    nts, ts, prods, un = lang()
    nul, F, W, table, ok = gg.sets(prods, nts)
    tj = [{"a": a, "t": t, "p": p} for (a, t), p in sorted(table.items(), key=lambda x: x[0])]
    base = {"nts": [{"id": a, "nm": "" if a in un else LANG_NAMES[a]} for a in nts], "ts": [{"id": t, "nm": "T%d" % t} for t in ts], "prods": prods, "table": tj}
    d = 300 if not big else 700  # depth
    v = 130 if not big else 200  # width: deciding whether a word of that many children is an expansion is cubic
    ws = [[RR, CO] + [LP] * d + [TR_] + [RP, ST] * d + [SE],
          [RR, CO] + [TR_, OR] * v + [EP, SE],
          [RR, CO, TR_, SE, TR_, CO, RL, SE] * (v // 4),
          [RR, CO] + [RR, ST, QU] * v + [SE],
          [RR, CO] + [LP] * d + [TR_] + [RP] * (d - 1) + [SE]]
    out = []
    for w in ws:
        for who in ("ll1", "v1"):
            out.append(dict(base, inputs=[{"toks": [tok(rng, t, i) for i, t in enumerate(w + [1])], "who": who, "entry": 0, "m": False}]))
    return out


def project(c, o):
    if o["r"] == "ok":
        o = dict(o, v={"outs": [dict(x, tree=flat(x["tree"][0]) if x["tree"] else []) for x in o["v"]["outs"]]})
    return {"case": c, "obs": o}


def run(want, bad):
    def go(ck):
        ck.model("MC_Parser", MC % (3, 2, "{1}"))
        if ck.thorough:
            ck.model("MC_Parser", MC % (4, 2, "{1}"), timeout=3000, heap="16g")
            ck.model("MC_Parser", MC % (3, 4, "{}"), timeout=3000, heap="16g")
        rng = ck.rng()
        cases = parse_cases(rng, 260 if not ck.thorough else 3000, 10, bad) + scale_cases(rng, ck.thorough)
        ck.conform("parse", "TR_Parser", cases, project=project, env={"TR_WANT": want})
        if any("driver:" in w for _, w in ck.viol):
            ck.viol = []
            raise ToolError("driver supplied a wrong table")
    go.project = {"parse": project}
    return go


CHECKS = {"C07": run("complete", .15), "C08": run("sound", .75)}
