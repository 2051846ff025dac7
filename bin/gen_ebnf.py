"""EBNF grammar generation (inputs only)."""
import copy, itertools

import gen_grammar as gg


def E(k, n="", alts=(), s="", z=False):
    return {"k": k, "n": n, "alts": list(alts), "s": s, "z": z}


def P(n, alts):
    return {"k": "P", "n": n, "alts": alts, "re": ""}


def L(n, re):
    return {"k": "L", "n": n, "re": re, "alts": []}


SFX = ["", "", "", "*", "+", "?"]


def elem(rng, toks, rules, depth, sfx=SFX):
    x = rng.random()
    s = rng.choice(sfx)
    z = s != "" and rng.random() < .2
    if depth > 0 and x < .3:
        return E("B", "", alts(rng, toks, rules, depth - 1, sfx, 3, 3), s, z)
    if rules and x < .55:
        return E("N", rng.choice(rules), (), s, z)
    return E("T", rng.choice(toks), (), s, z)


def alts(rng, toks, rules, depth, sfx=SFX, na=3, ne=4):
    out = []
    for _ in range(rng.randint(1, na)):
        if rng.random() < .12:
            out.append([])
        else:
            out.append([elem(rng, toks, rules, depth, sfx) for _ in range(rng.randint(1, ne))])
    return out


def shuffle_defs(rng, prules, lrules):
    """Interleave, keeping each kind's relative order free but the start rule first among rules."""
    defs = prules[:]
    pos = sorted(rng.randint(0, len(defs)) for _ in lrules)
    for off, (p, l) in enumerate(zip(pos, lrules)):
        defs.insert(p + off, l)
    return defs


NAMES = ["stat", "expr", "ab", "r2", "x_y", "item", "list", "term", "aa", "bb", "cc", "dd", "ee", "ff"]
TNAMES = ["NUM", "ID", "AB", "T2", "X_Y", "PLUS", "LPAREN", "A1", "B1", "C1", "D1"]


def grammar(rng, nr, nt, depth=2, sfx=SFX, na=3, ne=4):
    rules = rng.sample(NAMES, nr) if nr <= len(NAMES) else ["rule%d" % i for i in range(nr)]
    toks = rng.sample(TNAMES, nt) if nt <= len(TNAMES) else ["TOK%d" % i for i in range(nt)]
    ps = [P(n, alts(rng, toks, rules, depth, sfx, na, ne)) for n in rules]
    ls = [L(t, "/%s/" % t.lower()) for t in toks]
    return shuffle_defs(rng, ps, ls)


def collide(rng):
    """Token and rule numbers overlap and every number carries every suffix somewhere."""
    nr, nt = rng.randint(3, 6), rng.randint(2, 5)
    rules, toks = NAMES[:nr], TNAMES[:nt]
    ps = []
    for i, n in enumerate(rules):
        els = []
        for _ in range(rng.randint(1, 4)):
            s = rng.choice(["*", "+", "?"])
            if rng.random() < .5:
                els.append(E("T", rng.choice(toks), (), s))
            elif i + 1 < nr:
                els.append(E("N", rules[rng.randint(i + 1, nr - 1)], (), s))
            else:
                els.append(E("T", rng.choice(toks), (), ""))
        ps.append(P(n, [els]))
    ps[-1] = P(rules[-1], [[E("T", toks[-1])]])
    return shuffle_defs(rng, ps, [L(t, "/%s/" % t.lower()) for t in toks])


def repeats(rng):
    """The same sub-expression several times, next to near copies of it (order, suffix, nesting)."""
    toks = TNAMES[:rng.randint(2, 3)]
    rules = NAMES[:rng.randint(1, 3)]
    base = alts(rng, toks, rules[1:], 1, SFX, 3, 2)
    import copy
    near = []
    for _ in range(rng.randint(2, 5)):
        b = copy.deepcopy(base)
        x = rng.random()
        if x < .25 and len(b) > 1:
            rng.shuffle(b)
        elif x < .45:
            i = rng.randrange(len(b))
            if b[i]:
                e = rng.choice(b[i]); e["s"] = rng.choice(["", "*", "+", "?"])
        elif x < .6:
            b = b[: rng.randint(1, len(b))]
        elif x < .7:
            b = b + [[]]
        near.append(E("B", "", b, rng.choice(["", "*", "+", "?"])))
    ps = [P(rules[0], [near[:3], near[3:] or [E("T", toks[0])]])]
    for n in rules[1:]:
        ps.append(P(n, [[E("T", rng.choice(toks))], [near[0]]]))
    return shuffle_defs(rng, ps, [L(t, "/%s/" % t.lower()) for t in toks])


def sheet(rng):
    """Many groups over the same symbols in (mostly) the same order, cut, nested and marked differently."""
    toks, rules = TNAMES[:rng.randint(1, 3)], NAMES[:rng.randint(5, 8)]
    pool = [("T", t) for t in toks] + [("N", n) for n in rules[-2:]]
    syms = [rng.choice(pool) for _ in range(rng.choice([2, 3, 3, 3, 4]))]

    def body():
        o = syms[:]
        if rng.random() < .25:
            rng.shuffle(o)
        es = [E(k, n, (), rng.choice(SFX) if rng.random() < .15 else "") for k, n in o]
        if rng.random() < .3:  # a run of them in parentheses
            i = rng.randrange(len(es))
            j = rng.randint(i + 1, len(es))
            inner = es[i:j]
            cut = rng.randint(0, len(inner))
            es[i:j] = [E("B", "", [x for x in (inner[:cut], inner[cut:]) if x] or [inner], rng.choice(SFX) if rng.random() < .4 else "")]
        out = [[]]
        for i, e in enumerate(es):
            if i and rng.random() < .45:
                out.append([])
            out[-1].append(e)
        if rng.random() < .15:
            out.insert(rng.randint(0, len(out)), [])
        return out
    ps = []
    for n in rules[:-2]:
        ps.append(P(n, [[E("B", "", body(), rng.choice(SFX))] + ([E("B", "", body(), rng.choice(SFX))] if rng.random() < .3 else []) for _ in range(rng.choice([1, 1, 2]))]))
    for n in rules[-2:]:
        ps.append(P(n, [[E("T", rng.choice(toks))]]))
    return shuffle_defs(rng, ps, [L(t, "/%s/" % t.lower()) for t in toks])


def nested(rng, depth):
    toks = TNAMES[:2]
    e = E("T", toks[0])
    for i in range(depth):
        a = [[e]] if rng.random() < .6 else [[e], [E("T", toks[1])]]
        if rng.random() < .3:
            a[0].append(E("T", rng.choice(toks)))
        e = E("B", "", a, rng.choice(["", "", "?", "*", "+"]) if i % 3 == 0 else "")
    return shuffle_defs(rng, [P("stat", [[e]])], [L(t, "/%s/" % t.lower()) for t in toks])


def symbols(alts_):
    out = set()
    for a in alts_:
        for e in a:
            out |= symbols(e["alts"]) if e["k"] == "B" else {(e["k"], e["n"])}
    return out


def lits(rules):
    """distinct string literals"""
    out = []

    def al(as_):
        for a in as_:
            for e in a:
                if e["k"] == "S" and e["n"] not in out:
                    out.append(e["n"])
                al(e["alts"])
    for r in rules:
        al(r["alts"])
    return out


LITS = ["'+'", "'-'", "'if'", "'('", "')'", "'\\n'", "'ID'", "'_STOP'", "'|'", "'\\''", "'x y'", "'é'", "'stat'", "'->'"]


def literalise(rng, rules, p=.4):
    """some tokens become string literals"""
    pool = LITS[:]
    rng.shuffle(pool)
    m = {}
    for r in rules:
        if r["k"] == "L" and pool and rng.random() < p and r["n"] not in m:
            m[r["n"]] = pool.pop()

    def al(as_):
        for a in as_:
            for e in a:
                if e["k"] == "T" and e["n"] in m:
                    e["k"], e["n"] = "S", m[e["n"]]
                al(e["alts"])
    for r in rules:
        al(r["alts"])
    out = [r for r in rules if not (r["k"] == "L" and r["n"] in m and rng.random() < .8)]
    return out if lits(out) or any(r["k"] == "L" for r in out) else rules


def share_names(rng, rules):
    """tokens named like rules: two name spaces in a syntax tree"""
    toks = list(dict.fromkeys(r["n"] for r in rules if r["k"] == "L"))
    names = list(dict.fromkeys(r["n"] for r in rules if r["k"] == "P"))
    rng.shuffle(names)
    ren = {t: n for t, n in zip(toks, names) if rng.random() < .7}

    def al(as_):
        return [[dict(e, n=ren.get(e["n"], e["n"]) if e["k"] == "T" else e["n"], alts=al(e["alts"])) if e["k"] == "B" or e["k"] == "T" else e for e in a] for a in as_]
    return [dict(r, n=ren.get(r["n"], r["n"])) if r["k"] == "L" else dict(r, alts=al(r["alts"])) for r in rules]


def bounds(rules):
    nt = sum(r["k"] == "L" for r in rules) + len(lits(rules))
    nr = sum(r["k"] == "P" for r in rules)
    k = {1: 6, 2: 5, 3: 3, 4: 3}.get(nt, 2 if nt <= 8 else 0)
    if nr > 8:
        k = 0
    d = max([len(symbols(r["alts"])) for r in rules if r["k"] == "P"] + [1])
    ks = {1: 6, 2: 5, 3: 4, 4: 3}.get(d, 3 if d <= 6 else 2)
    return k, ks


def case(rules, **kw):
    k, ks = bounds(rules)
    return dict({"rules": rules, "k": k, "ks": ks}, **kw)


# ---- rewriting, for choosing LL(1) inputs only --------------------------------------------
def rewrite(rules):
    toks, rs = {}, {}
    for n in lits(rules):
        toks[n] = 2 + len(toks)
    for r in rules:
        if r["k"] == "L":
            toks.setdefault(r["n"], 2 + len(toks))
        else:
            rs.setdefault(r["n"], len(rs))
    nxt = [len(rs)]
    prods, blk, sfx = [], {}, {}

    def el(e):
        if e["k"] in "TS":
            it = ("T", toks[e["n"]])
        elif e["k"] == "N":
            it = ("N", rs[e["n"]])
        else:
            r = tuple(al(a) for a in e["alts"])
            if r not in blk:
                blk[r] = nxt[0]; nxt[0] += 1
                prods.extend({"l": blk[r], "r": [list(s) for s in x]} for x in r)
            it = ("N", blk[r])
        if e["s"] == "":
            return it
        key = (e["s"], it)
        if key not in sfx:
            h = sfx[key] = nxt[0]; nxt[0] += 1
            me = ["N", h]
            prods.append({"l": h, "r": [list(it)] if e["s"] == "+" else []})
            prods.append({"l": h, "r": [list(it)] if e["s"] == "?" else [list(it), me]})
        return ("N", sfx[key])

    def al(a):
        return tuple(el(e) for e in a)
    for r in rules:
        if r["k"] == "P":
            for a in r["alts"]:
                prods.append({"l": rs[r["n"]], "r": [list(s) for s in al(a)]})
    return gg.dedup(prods), list(range(nxt[0])), toks, rs


def is_ll1(rules):
    p, n, _, _ = rewrite(rules)
    return gg.sets(p, n)[4]


def ll1(rng, tries=300):
    for _ in range(tries):
        x = rng.random()
        nr, nt = rng.randint(1, 4), rng.randint(2, 6)
        g = grammar(rng, nr, nt, rng.randint(0, 2), ["", "", "*", "?"], 3, 3)
        if is_ll1(g) and shortest(g)[first_rule(g)] is not None:
            return g
    return None


def first_rule(rules):
    return next(r["n"] for r in rules if r["k"] == "P")


def shortest(rules):
    D = {}
    for r in rules:
        if r["k"] == "P":
            D.setdefault(r["n"], r["alts"])
    W = {n: None for n in D}

    def alts_len(as_):
        best = None
        for a in as_:
            t = 0
            for e in a:
                l = 0 if e["s"] in ("*", "?") else 1 if e["k"] in "TS" else W[e["n"]] if e["k"] == "N" else alts_len(e["alts"])
                if l is None:
                    t = None; break
                t += l
            if t is not None and (best is None or t < best):
                best = t
        return best
    ch = True
    while ch:
        ch = False
        for n in D:
            l = alts_len(D[n])
            if l is not None and (W[n] is None or l < W[n]):
                W[n] = l; ch = True
    return W


def sentence(rng, rules, maxlen=14):
    """A random word of the start rule (None when it grew too long)."""
    D = {}
    for r in rules:
        if r["k"] == "P":
            D.setdefault(r["n"], r["alts"])
    W = shortest(rules)
    budget = [60]

    def cost(e):
        if e["s"] in ("*", "?"):
            return 0
        if e["k"] in "TS":
            return 1
        if e["k"] == "N":
            return W[e["n"]]
        cs = [acost(a) for a in e["alts"]]
        cs = [c for c in cs if c is not None]
        return min(cs) if cs else None

    def acost(a):
        t = 0
        for e in a:
            c = cost(e)
            if c is None:
                return None
            t += c
        return t

    def go_alts(as_, depth):
        ok = [a for a in as_ if acost(a) is not None]
        if not ok:
            raise ValueError
        a = min(ok, key=acost) if depth > 6 else rng.choice(ok)
        out = []
        for e in a:
            s = e["s"]
            n = 1
            base = cost(dict(e, s=""))
            if s == "*":
                n = 0 if depth > 6 or base is None else rng.choice([0, 1, 1, 2, 3])
            elif s == "?":
                n = 0 if depth > 6 or base is None else rng.randint(0, 1)
            elif s == "+":
                n = 1 if depth > 6 else rng.choice([1, 1, 2, 3])
            for _ in range(n):
                budget[0] -= 1
                if budget[0] < 0:
                    raise ValueError
                if e["k"] in "TS":
                    out.append(e["n"])
                elif e["k"] == "N":
                    out += go_alts(D[e["n"]], depth + 1)
                else:
                    out += go_alts(e["alts"], depth + 1)
        return out
    try:
        w = go_alts(D[first_rule(rules)], 0)
    except (ValueError, RecursionError):
        return None
    return w if len(w) <= maxlen else None


def mutate(rng, w, toks):
    w = list(w)
    for _ in range(rng.randint(1, 2)):
        x = rng.random()
        if x < .25 and w:
            del w[rng.randrange(len(w))]
        elif x < .45 and w:  # once more
            i = rng.randrange(len(w))
            w.insert(i, w[i])
        elif x < .6:
            w.insert(rng.randint(0, len(w)), rng.choice(toks))
        elif w:
            w[rng.randrange(len(w))] = rng.choice(toks)
    return w


def inputs(rng, rules, n, maxlen=14):
    toks = [r["n"] for r in rules if r["k"] == "L"] + lits(rules)
    out = [[]]
    for _ in range(n):
        w = sentence(rng, rules, maxlen)
        if w is not None:
            out.append(w)
            if rng.random() < .6:
                out.append(mutate(rng, w, toks))
            if rng.random() < .2:
                out.append(w[:rng.randint(0, len(w))])
        else:
            out.append([rng.choice(toks) for _ in range(rng.randint(0, 5))])
    seen, res = set(), []
    for w in out:
        if tuple(w) not in seen:
            seen.add(tuple(w)); res.append(w)
    return res


def ll1_rich(rng, tries=60):
    """Guarded alternatives: each starts with its own token, so larger grammars stay LL(1);
    token and rule numbers overlap and carry the same suffixes."""
    for _ in range(tries):
        nr = rng.randint(2, 6)
        rules = NAMES[:nr] if rng.random() < .5 else rng.sample(NAMES, nr)
        heads = ["H%d" % i for i in range(12)]
        rng.shuffle(heads)
        toks = heads + ["K1", "K2", "K3"]
        hi = itertools.cycle(heads)

        def alt(i, depth):
            els = [E("T", next(hi))]
            for _ in range(rng.randint(0, 3)):
                x = rng.random()
                s = rng.choice(["", "", "*", "?"])
                if x < .4:
                    els.append(E("N", rng.choice(rules[i + 1:] or rules), (), s if i + 1 < nr else rng.choice(["*", "?"])))
                elif x < .6 and depth > 0:
                    els.append(E("B", "", [alt(i, depth - 1) for _ in range(rng.randint(1, 2))] + ([[]] if rng.random() < .15 else []), s))
                else:
                    els.append(E("T", rng.choice(toks), (), s))
            return els
        ps = [P(n, [alt(i, 2) for _ in range(rng.randint(1, 2))] + ([[]] if rng.random() < .2 else [])) for i, n in enumerate(rules)]
        used = set()
        for p in ps:
            used |= {n for k, n in symbols(p["alts"]) if k == "T"}
        ls = [L(t, "/%s/" % t.lower()) for t in toks if t in used]
        g = shuffle_defs(rng, ps, ls)
        if is_ll1(g) and shortest(g)[first_rule(g)] is not None:
            return g
    return None


def stir(rng, rules, tries=8):
    """Small edits that keep the grammar LL(1): doubled neighbours, the same group in two places, wrapping."""
    import copy
    g = rules
    for _ in range(tries):
        h = copy.deepcopy(g)
        al = []

        def walk(as_):
            al.extend((as_, i) for i in range(len(as_)))
            for a in as_:
                for e in a:
                    walk(e["alts"])
        for r in h:
            walk(r["alts"])
        els = [e for as_, i in al for e in as_[i]]
        as_, i = rng.choice(al)
        x = rng.random()
        if x < .35 and as_[i]:
            j = rng.randrange(len(as_[i]))
            as_[i].insert(j, copy.deepcopy(as_[i][j]))
        elif x < .6 and els:
            as_[i].insert(rng.randint(0, len(as_[i])), copy.deepcopy(rng.choice(els)))
        elif x < .8 and as_[i]:
            j = rng.randrange(len(as_[i]))
            k = rng.randint(j + 1, len(as_[i]))
            as_[i][j:k] = [E("B", "", [as_[i][j:k]] + ([[]] if rng.random() < .2 else []), rng.choice(["", "", "?", "*"]))]
            if rng.random() < .4:
                as_[i].insert(j, copy.deepcopy(as_[i][j]))
        elif els:
            e = rng.choice(els)
            e["s"] = rng.choice(["", "*", "?"])
        if is_ll1(h) and shortest(h)[first_rule(h)] is not None:
            g = h
    return g


def forms(rng, tries=60):
    """LL(1) grammars in which the same few pieces come back in many spellings: marked, grouped, optional by an
    empty alternative, cut, swapped, doubled; tokens of their own keep them apart."""
    for _ in range(tries):
        toks, rules = ["AA", "BB", "CC"][:rng.randint(1, 3)], NAMES[:rng.randint(2, 4)]
        heads = ["H%d" % i for i in range(14)]
        rng.shuffle(heads)
        hi = iter(itertools.cycle(heads))
        low = rules[-1]
        pool = [("T", t) for t in toks] + [("N", low)]
        base = [rng.choice(pool) for _ in range(rng.randint(1, 2))]

        def group(d=1):
            o = base if rng.random() < .6 else base[::-1] if rng.random() < .5 else base[:1] if rng.random() < .7 else base + base[:1]
            es = [E(k, n, (), rng.choice(["", "", "", "*", "?"])) for k, n in o]
            if d and rng.random() < .3:
                j = rng.randrange(len(es))
                es[j:] = [E("B", "", [es[j:]] + ([[]] if rng.random() < .3 else []), rng.choice(["", "*", "?"]))]
            x = rng.random()
            if x < .2 and len(es) > 1:
                out = [[e] for e in es]
            else:
                out = [es]
            y = rng.random()
            if y < .3:
                out.append([])
            elif y < .4:
                out.insert(0, [])
            return E("B", "", out, rng.choice(["", "", "", "*", "?"]))

        def alt(n):
            out = []
            for _ in range(n):
                out.append(E("T", next(hi)))
                x = rng.random()
                k, nm = rng.choice(base)
                out.append(E(k, nm, (), rng.choice(["", "*", "?"])) if x < .35 else group())
            return out
        ps = []
        for i, n in enumerate(rules[:-1]):
            as_ = [alt(rng.randint(1, 3)) for _ in range(rng.randint(1, 3))]
            if i + 1 < len(rules) - 1:
                as_[0].append(E("N", rules[i + 1]))
            if rng.random() < .2:
                as_.append([])
            ps.append(P(n, as_))
        ps.append(P(low, [[E("T", "DD")], [E("T", "EE"), E("T", rng.choice(["DD", "EE"]), (), "?")]][:rng.randint(1, 2)]))
        used = {n for p in ps for k, n in symbols(p["alts"]) if k == "T"}
        if len(used) > 24:
            continue
        g = shuffle_defs(rng, ps, [L(t, "/%s/" % t.lower()) for t in heads + ["AA", "BB", "CC", "DD", "EE"] if t in used])
        if is_ll1(g) and shortest(g)[first_rule(g)] is not None:
            return g
    return None


def not_ll1(rng, tries=40):
    """grammars of which most are not LL(1): free ones, and LL(1) ones with one reference changed"""
    for _ in range(tries):
        if rng.random() < .4:
            g = grammar(rng, rng.randint(1, 4), rng.randint(2, 5), 2, na=3, ne=3)
        else:
            g = copy.deepcopy(ll1(rng) if rng.random() < .5 else ll1_rich(rng))
            if g is None:
                continue
            els = []

            def walk(as_):
                for a in as_:
                    for e in a:
                        els.append(e)
                        walk(e["alts"])
            for r in g:
                walk(r["alts"])
            if not els:
                continue
            x, y = rng.choice(els), rng.choice(els)
            if rng.random() < .5 and x["k"] == y["k"] == "T":
                x["n"] = y["n"]
            else:
                x["s"] = rng.choice(["*", "+", "?", ""])
        if shortest(g)[first_rule(g)] is not None:
            return g
    return None
