"""Random syntax trees (inputs only)."""
NAMES = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"]
OLD = {"TOKEN_REF": 6, "RULE_REF": 7, "COLON": 8, "OR": 9, "SEMI": 10, "STAR": 11, "PLUS": 12, "QUESTION": 13, "LPAREN": 16, "RPAREN": 17,
       "STRING_LITERAL": 19, "REGULAR_LITERAL": 21, "EPSILON": 22}
BIG = 2147483647


def tok(ty, nm="t", tx="x", **kw):
    t = {"ty": ty, "nm": nm, "tx": tx, "sl": 0, "sc": 0, "el": 0, "ec": 0, "chn": 0, "ti": 0, "cs": 0, "ce": 0}
    t.update(kw)
    return t


def jitter(rng, t):
    """other positions, channels, names and texts for the tokens of a tree, other names for its nodes"""
    if rng.random() < .1:
        t["nm"] = rng.choice(["", "x"] + NAMES)
    for c in t.get("ch", []):
        if c["k"] == "R":
            jitter(rng, c)
        else:
            n = rng.choice([2, 2, 40])
            c["t"] = dict(c["t"], **{k: rng.randrange(n) for k in ("sl", "sc", "el", "ec", "chn", "ti", "cs", "ce")}, nm=rng.choice(["", "A", "K1", "ID", "ε", "_STOP", "_START", "WHITE_SPACE"]), tx=rng.choice(["", "x", "x", "\n", "田", "<EOF>", "_STOP", "_START", "0"]))


def leaf(rng, err=.15, tys=None):
    ty = rng.choice(tys or [0, 1, 2, 3, 5, 6, 7, 9, 13, 21])
    return {"k": "E" if rng.random() < err else "T", "t": tok(ty, "K%d" % ty)}


def node(ix, ch, nm=None):
    return {"k": "R", "ix": ix, "nm": nm if nm is not None else NAMES[ix] if isinstance(ix, int) and ix < 9 else "n%s" % ix, "ch": ch}


def tree(rng, size, empty=.2, err=.15, tys=None, ixs=None, wide=4):
    """random tree with about `size` nodes"""
    ixs = ixs or [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 77, BIG]

    def go(n, d):
        if n <= 1 or d > 40:
            return (node(rng.choice(ixs), []) if rng.random() < empty else leaf(rng, err, tys))
        k = rng.randint(1, min(wide, n))
        cuts = sorted(rng.randint(0, n - 1) for _ in range(k - 1))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [n - 1])]
        return node(rng.choice(ixs), [go(p, d + 1) for p in parts if p > 0 or rng.random() < .3])
    t = go(size, 0)
    return t if t["k"] == "R" else node(rng.choice(ixs), [t])


def chain(rng, d, **kw):
    t = node(rng.randrange(9), [leaf(rng)])
    for i in range(d):
        ch = [t]
        if rng.random() < .5:
            ch.insert(rng.randint(0, 1), leaf(rng))
        t = node(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 99]), ch)
    return t


def from_flat(q, nm=lambda x: NAMES[x] if x < 9 else "n%d" % x):
    """tree of MC_Trees' exported preorder list"""
    it = iter(q)

    def go():
        x = next(it)
        if x["k"] == "R":
            return node(x["ix"], [go() for _ in range(x["n"])], nm(x["ix"]))
        return {"k": x["k"], "t": tok(int(x["t"]["ty"]), "K")}
    return go()


def leaves(t):
    if t["k"] != "R":
        return [t]
    return [l for c in t["ch"] for l in leaves(c)]


def count(t):
    return 1 if t["k"] != "R" else 1 + sum(count(c) for c in t["ch"])


ALPH = "ab1 \n\té田\U0001f600ε;'\0\r\u00a0\ufeff"


def locate(rng, t, loose=False, hollow=0):
    """gives the leaves consecutive non-empty pieces of a random source text; -> text.
    loose: the texts and numbers of the leaves say nothing about their places;
    hollow: how many of them cover nothing, as an end marker does"""
    w, off, line, col = [], 0, 0, 0

    def emit(n):
        nonlocal off, line, col
        s = "".join(rng.choice(ALPH) for _ in range(n))
        for ch in s:
            w.append(ord(ch))
            off += len(ch.encode())
            if ch == "\n":
                line, col = line + 1, 0
            else:
                col += len(ch.encode())
        return s
    for i, l in enumerate(leaves(t)):
        if rng.random() < .6:
            emit(rng.randint(1, 3))
        a = (off, line, col)
        s = emit(0 if rng.random() < hollow else rng.randint(1, 3))
        if loose:
            s, i = rng.choice(["", "x", "田田田", "abcdefgh", s]), rng.choice([0, 0, 1, i])
        l["t"] = tok(l["t"]["ty"], l["t"]["nm"], s, sl=a[1], sc=a[2], el=line, ec=col, ti=i, cs=a[0], ce=off)
    emit(rng.randint(0, 2))
    return w
