"""Plain grammar generation (inputs only; the meaning is decided by spec/CFG.tla)."""


def sets(prods, nts):
    """FIRST/FOLLOW for *choosing* inputs (TLC re-derives everything)."""
    nul, ch = set(), True
    while ch:
        ch = False
        for p in prods:
            if p["l"] not in nul and all(s[0] == "N" and s[1] in nul for s in p["r"]):
                nul.add(p["l"]); ch = True
    F = {a: set() for a in nts}

    def sf(r):
        out = set()
        for k, i in r:
            if k == "T":
                out.add(i); return out, False
            out |= F[i]
            if i not in nul:
                return out, False
        return out, True
    ch = True
    while ch:
        ch = False
        for p in prods:
            f, _ = sf(p["r"])
            if not f <= F[p["l"]]:
                F[p["l"]] |= f; ch = True
    W = {a: set() for a in nts}
    W[0].add(1)
    ch = True
    while ch:
        ch = False
        for p in prods:
            for i, (k, b) in enumerate(p["r"]):
                if k != "N":
                    continue
                f, e = sf(p["r"][i + 1:])
                add = f | (W[p["l"]] if e else set())
                if not add <= W[b]:
                    W[b] |= add; ch = True
    table, ok = {}, True
    for p in prods:
        f, e = sf(p["r"])
        for t in f | (W[p["l"]] if e else set()):
            if (p["l"], t) in table and table[(p["l"], t)] != p:
                ok = False
            table[(p["l"], t)] = p
    return nul, F, W, table, ok


def dedup(prods):
    seen, out = set(), []
    for p in prods:
        k = (p["l"], tuple(map(tuple, p["r"])))
        if k not in seen:
            seen.add(k); out.append(p)
    return out


def case(nts, ts, prods, reps=4, names=None, unnamed=()):
    return {"nts": [{"id": a, "nm": "" if a in unnamed else "n%d" % a} for a in nts],
            "ts": [{"id": t, "nm": "T%d" % t} for t in ts if t > 1], "prods": dedup(prods), "reps": reps}


def rename(rng, c, odds=None):
    """now and then: names that look like numbers (their own, another symbol's, an unnamed one's) or like names of the other kind"""
    if rng.random() < (.7 if odds is None else 1 - odds):
        return
    ids_ = [x["id"] for x in c["nts"]]
    rot = dict(zip(ids_, ids_[1:] + ids_[:1]))
    f = rng.choice([lambda i: str(i), lambda i: str(rot[i]), lambda i: "T%d" % i, lambda i: "n %d" % i, lambda i: "é" * (i + 1), lambda i: "_STOP" if i == 0 else "_START" if i == ids_[-1] else "'%d'" % i])
    c["nts"] = [dict(x, nm=x["nm"] and f(x["id"])) for x in c["nts"]]
    if rng.random() < .5:
        c["ts"] = [dict(x, nm="n%d" % x["id"]) for x in c["ts"]]


def ids(rng, n, lo, hi):
    if rng.random() < .5:
        return list(range(lo, lo + n))
    return sorted(rng.sample(range(lo, hi), n))


def random_grammar(rng, nn, nt, np, maxr, pn=.5, pe=.2):
    nts = [0] + ids(rng, nn - 1, 1, 40 + 3 * nn)
    ts = ids(rng, nt, 2, 40 + 3 * nt)
    prods = []
    for _ in range(np):
        n = 0 if rng.random() < pe else rng.randint(1, maxr)
        prods.append({"l": rng.choice(nts), "r": [["N", rng.choice(nts)] if rng.random() < pn else ["T", rng.choice(ts)] for _ in range(n)]})
    return nts, ts, prods


def chain(rng, n, back=False, nul=True, shuffle=True, stop=.3):
    """0 -> 1 x?, 1 -> 2 ..., information has to travel along the chain (stop: how often a token ends the way of FOLLOW)."""
    order = list(range(n))
    if shuffle:
        rest = order[1:]; rng.shuffle(rest); order = [0] + rest
    prods = []
    for i in range(n - 1):
        r = [["N", order[i + 1]]]
        if rng.random() < stop:
            r.append(["T", 2 + rng.randrange(5)])
        if nul and rng.random() < stop:
            r.insert(0, ["N", order[rng.randrange(i + 1, n)]])
        prods.append({"l": order[i], "r": r})
    prods.append({"l": order[-1], "r": [["T", 2 + rng.randrange(5)]]})
    if nul:
        prods.append({"l": order[-1], "r": []})
    if back:
        prods.append({"l": order[-1], "r": [["N", 0]]})
    return list(range(n)), list(range(2, 8)), prods


def tails(rng, n):
    """S -> A1 A2 .. An z with each Ai -> ti | empty: FIRST/FOLLOW across long nullable tails."""
    nts = list(range(n + 1))
    ts = list(range(2, n + 4))
    prods = [{"l": 0, "r": [["N", i] for i in range(1, n + 1)] + ([["T", n + 3]] if rng.random() < .5 else [])}]
    for i in range(1, n + 1):
        prods.append({"l": i, "r": [["T", i + 1]]})
        if rng.random() < .9:
            prods.append({"l": i, "r": []})
    return nts, ts, prods


def ll1_grammar(rng, nn, nt, maxalt=3, maxr=4, tries=400):
    """Random grammars filtered to LL(1); every nonterminal productive enough to have sentences."""
    for _ in range(tries):
        nts = [0] + ids(rng, nn - 1, 1, 20 + 2 * nn)
        ts = ids(rng, nt, 2, 20 + 2 * nt)
        prods = []
        for a in nts:
            k = rng.randint(1, maxalt)
            heads = rng.sample(ts, min(k, len(ts)))
            for j in range(k):
                x = rng.random()
                if x < .2:
                    r = []
                else:
                    r = [["T", heads[j % len(heads)]]] if rng.random() < .6 else [["N", rng.choice(nts)]]
                    for _ in range(rng.randint(0, maxr - 1)):
                        r.append(["N", rng.choice(nts)] if rng.random() < .55 else ["T", rng.choice(ts)])
                prods.append({"l": a, "r": r})
        prods = dedup(prods)
        if sets(prods, nts)[4]:
            return nts, ts, prods
    return None


def ll1_rich(rng, nn, nt, maxalt=4, maxr=5, tries=300):
    """LL(1) grammars in which every rule is productive, most are reachable and there is much to derive."""
    for _ in range(tries):
        nts = [0] + ids(rng, nn - 1, 1, 20 + 2 * nn)
        ts = ids(rng, nt, 2, 20 + 2 * nt)
        rank = nts[1:]
        rng.shuffle(rank)
        rank = [0] + rank
        prods = []
        for j, a in enumerate(rank):
            later = rank[j + 1:]
            k = rng.randint(1, maxalt)
            heads = rng.sample(ts, min(k, len(ts)))
            empty = rng.random() < .45
            for h in range(len(heads)):
                if h and h == len(heads) - 1 and empty or not h and empty and len(heads) == 1:
                    prods.append({"l": a, "r": []})
                    continue
                r = [["N", rng.choice(later)]] if later and rng.random() < .4 else [["T", heads[h]]]
                for _ in range(rng.choice([0, 1, 1, 2, 2, 3, maxr - 1])):
                    y = rng.random()
                    r.append(["T", rng.choice(ts)] if y < .4 else ["N", rng.choice(later)] if later and (y < .8 or h == 0) else
                             ["N", rng.choice(nts)] if h else ["T", rng.choice(ts)])
                prods.append({"l": a, "r": r})
        prods = dedup(prods)
        if sets(prods, nts)[4]:
            seen, todo = {0}, [0]
            while todo:
                a = todo.pop()
                for p in prods:
                    if p["l"] == a:
                        for kk, i in p["r"]:
                            if kk == "N" and i not in seen:
                                seen.add(i); todo.append(i)
            if 2 * len(seen) > nn and len([p for p in prods if p["l"] in seen]) > len(seen):
                return nts, ts, prods
    return None


def analysis_cases(rng, n, big):
    out = []
    for k in range(n):
        x = k % 8
        if x == 0:
            g = random_grammar(rng, rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 6), 3)
        elif x == 1:
            g = random_grammar(rng, rng.randint(3, 7), rng.randint(2, 5), rng.randint(6, 18), 4, .6, .25)
        elif x == 2:
            g = random_grammar(rng, rng.randint(3, 7), rng.randint(2, 5), rng.randint(6, 16), 5, .85, .25)
        elif x == 3:
            g = ll1_grammar(rng, rng.randint(2, 6), rng.randint(2, 6)) or random_grammar(rng, 3, 3, 5, 3)
        elif x == 4:
            g = ll1_grammar(rng, rng.randint(3, 8), rng.randint(4, 8)) or random_grammar(rng, 3, 3, 5, 3)
        elif x == 5:
            g = chain(rng, rng.randint(2, 12), rng.random() < .5, rng.random() < .7)
        elif x == 6:
            g = tails(rng, rng.randint(1, 9))
        else:
            g = random_grammar(rng, rng.randint(2, 5), rng.randint(1, 3), rng.randint(3, 10), 9, .7, .3)
            if rng.random() < .3:  # the end marker inside a right-hand side
                g[2].append({"l": rng.choice(g[0]), "r": [["N", rng.choice(g[0])], ["T", 1]]})
        out.append(case(*g, reps=4, unnamed={a for a in g[0] if a and rng.random() < .3}))
    for c in out:
        rename(rng, c)
        if rng.random() < .15 and c["prods"]:  # the start marker inside a right-hand side
            p = rng.choice(c["prods"])
            r = list(p["r"]); r.insert(rng.randint(0, len(r)), ["T", 0])
            c["prods"] = dedup(c["prods"] + [{"l": p["l"], "r": r}])
    for k in range(max(1, big // 6)):  # many symbols, large and far apart numbers
        n = rng.choice([70, 140])
        nts, ts, prods = tails(rng, 12)
        ts = list(range(2, 2 * n + 2))
        prods += [{"l": rng.choice(nts), "r": [["T", t]] + ([["N", rng.choice(nts)]] if rng.random() < .3 else [])} for t in ts if rng.random() < .9]
        out.append(case(nts, ts, prods, reps=3))
        nts, ts, prods = random_grammar(rng, 8, 8, 25, 30, .6, .2)
        m = {a: a * 70001 if a else 0 for a in nts}
        u = {t: t * 65536 + 255 for t in ts}
        out.append(case([m[a] for a in nts], list(u.values()), [{"l": m[p["l"]], "r": [[k_, m[i] if k_ == "N" else u[i]] for k_, i in p["r"]]} for p in prods], reps=3))
    for k in range(big):
        out.append(case(*chain(rng, rng.randint(50, 120), rng.random() < .5), reps=3))
        out.append(case(*chain(rng, rng.randint(50, 120), rng.random() < .5, rng.random() < .3, stop=rng.choice([0, .02])), reps=3))
        out.append(case(*tails(rng, rng.randint(20, 40)), reps=3))
        out.append(case(*random_grammar(rng, 25, 15, 60, 6, .6, .2), reps=3))
        g = ll1_grammar(rng, 12, 24, 3, 4, 100)
        if g:
            out.append(case(*g, reps=3))
    return out
