"""Random token patterns as syntax trees (spec/Lexer.tla), their spelling, and matching texts."""
CH = list("abcABC019_ \n\t\"#'/\\{}<>&%$.*+?()|[]^-~é田\U0001f600!=:,;")
META = set("\\.+*?()|[]{}^$")


def S(r, neg=False):
    return {"o": "set", "neg": neg, "r": r}


def C(ch):
    return S([[ord(ch), ord(ch)]])


def seq(a):
    return {"o": "seq", "a": a}


def rset(rng, chars):
    if rng.random() < .55:
        return C(rng.choice(chars))
    r = []
    for _ in range(rng.randint(1, 3)):
        y = rng.random()
        if y < .5:
            x = rng.choice([("a", "c"), ("0", "9"), ("A", "Z"), ("a", "z"), ("b", "b"), ("à", "ï"), ("一", "龥")])
            r.append([ord(x[0]), ord(x[1])])
        else:
            ch = rng.choice(chars)
            r.append([ord(ch), ord(ch)])
    return S(r, rng.random() < .2)


def node(rng, chars, d, nonnull=False):
    x = rng.random()
    if d <= 0 or x < .3:
        return rset(rng, chars)
    if x < .6:
        return seq([node(rng, chars, d - 1) if i else node(rng, chars, d - 1, nonnull) for i in range(rng.randint(1, 3))])
    if x < .75:
        return {"o": "alt", "a": [node(rng, chars, d - 1, nonnull) for _ in range(rng.randint(2, 3))]}
    if x < .88 or nonnull:
        return {"o": "plus", "x": node(rng, chars, d - 1, True), "lazy": rng.random() < .15}
    return {"o": rng.choice(["star", "opt"]), "x": node(rng, chars, d - 1, True), "lazy": rng.random() < .15}


def wordy(rng, chars):
    k = rng.randrange(7)
    if k == 0:  # keyword
        return seq([C(ch) for ch in rng.choice(["ab", "abc", "ac", "if", "abb", "aa", "=", "==", "<=", "\"", "\"#", "\"##", "\"###", "//", "/*", "{{", "}}", "{%", "\\n", "&lt;", "\\\\/"])])
    if k == 1:  # identifier
        return seq([S([[97, 122]]), {"o": rng.choice(["star", "plus"]), "x": S([[97, 122], [48, 57], [95, 95]]), "lazy": False}])
    if k == 2:  # number
        return seq([{"o": "plus", "x": S([[48, 57]]), "lazy": False},
                    {"o": "opt", "x": seq([C("."), {"o": "plus", "x": S([[48, 57]]), "lazy": False}]), "lazy": False}])
    if k == 3:  # delimited
        q = rng.choice("\"'#/%`")
        return seq([C(q), {"o": "star", "x": {"o": "alt", "a": [seq([C("\\"), C(q)]), S([[ord(q), ord(q)]], True)]}, "lazy": False}, C(q)])
    if k == 4:  # comment, lazy
        return seq([C("/"), C("*"), {"o": "star", "x": S([], True) if False else S([[0xffff, 0xffff]], True), "lazy": True}, C("*"), C("/")])
    if k == 5:  # leftmost-first alternatives where order matters
        w = rng.choice([["a", "ab"], ["ab", "a"], ["a", "abc", "ab"], ["=", "=="]])
        return {"o": "alt", "a": [seq([C(c) for c in x]) for x in w]}
    return {"o": "alt", "a": [C(ch) for ch in rng.sample(chars, min(3, len(chars)))]}


def lit(ch, rng, cls=False):
    if ch == "/":
        return "\\/"
    if ch == "\n" and rng.random() < .5:
        return "\\n"
    if ch == "\t" and rng.random() < .5:
        return "\\t"
    if ch in META or (cls and ch in "-&~"):
        return "\\" + ch
    return ch


def spell(re, rng):
    o = re["o"]
    if o == "set":
        r = re["r"]
        if len(r) == 1 and r[0][0] == r[0][1] and not re["neg"] and rng.random() < .8:
            return lit(chr(r[0][0]), rng)
        if re["neg"] and r == [[10, 10]] and rng.random() < .5:
            return "."
        return "[" + ("^" if re["neg"] else "") + "".join(lit(chr(a), rng, True) + ("-" + lit(chr(b), rng, True) if b != a else "") for a, b in r) + "]"
    if o == "seq" and len(re["a"]) > 1 and rng.random() < .08:  # a group around one part
        i = rng.randrange(len(re["a"]))
        a = [spell({"o": "seq", "a": [x]}, rng) for x in re["a"]]
        return "".join(["(%s)" % x if j == i else x for j, x in enumerate(a)])
    if o == "seq":
        return "".join("(?:" + spell(x, rng) + ")" if x["o"] == "alt" else spell(x, rng) for x in re["a"])
    if o == "alt":
        y = rng.random()
        g = "(%s)" if y < .3 else "(?:%s)" if y < .35 else "%s"
        return "|".join(g % spell(x, rng) for x in re["a"])
    x = re["x"]
    inner = spell(x, rng)
    if x["o"] != "set":
        inner = rng.choice(["(?:%s)", "(%s)"]) % inner
    return inner + {"star": "*", "plus": "+", "opt": "?"}[o] + ("?" if re["lazy"] else "")


def sample(re, rng, n=3):
    o = re["o"]
    if o == "set":
        for _ in range(20):
            if re["neg"]:
                ch = ord(rng.choice(CH))
                if not any(a <= ch <= b for a, b in re["r"]):
                    return [ch]
            else:
                a, b = rng.choice(re["r"])
                ch = rng.randint(a, b)
                if not 0xd800 <= ch < 0xe000:
                    return [ch]
        return [97]
    if o == "seq":
        return [c for x in re["a"] for c in sample(x, rng, n)]
    if o == "alt":
        return sample(rng.choice(re["a"]), rng, n)
    k = rng.randint(0 if o != "plus" else 1, 1 if o == "opt" else n)
    return [c for _ in range(k) for c in sample(re["x"], rng, max(1, n - 1))]


WS = {"o": "plus", "x": S([[32, 32], [13, 13], [10, 10], [9, 9], [12, 12]]), "lazy": False}
NAMES = ["ID", "NUM", "STR", "Aa", "IF", "TK_1", "T2", "String", "Vec", "Ok", "Err", "Regex", "Token", "Lexer", "A_B", "Zz9", "OP", "CMT", "EQ", "LT", "Some", "None", "Box",
         "X1", "X2", "X3", "Position", "Error", "KW", "Dq"]
LITS = ["'if'", "'+'", "'a.b'", "'('", "'\\n'", "'\\\\'", "'\\''", "'\"'", "'[a]'", "'x|y'", "'$'", "'田'", "'\\r'", "'\\t'", "'{2}'", "'^'", "'#'", "'/'", "' '"]


def lit_cps(l):
    out, i, s = [], 0, l[1:-1]
    while i < len(s):
        if s[i] == "\\":
            out.append({"n": 10, "r": 13, "t": 9, "\\": 92, "'": 39}[s[i + 1]])
            i += 2
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def lexer(rng, n, lits=False):
    """-> case for render mode + patterns/names/skip in declaration order."""
    chars = rng.sample(CH, rng.randint(4, 14))
    pats, names, rules = [], [], []
    toks = rng.sample(NAMES, n)
    if rng.random() < .4:  # nearly, but not, the name that is skipped
        toks[rng.randrange(n)] = rng.choice(["WHITE_SPACES", "WHITE_SPACE2", "WHITE_SPACE_", "NO_WHITE_SPACE", "White_space", "WHITESPACE", "WS", "WHITE", "SPACE"])
    wre, wpat = "/[ \\r\\n\\t\\f]+/", WS
    if rng.random() < .25:  # another text is what is skipped
        wpat = node(rng, chars, 1)
        wre = "/" + spell(wpat, rng) + "/"
        if wre == "//":
            wre, wpat = "/#/", C("#")
    ws = rng.randrange(n + 1)
    use = []
    if lits:
        use = rng.sample(LITS, rng.randint(1, 6))
        E = lambda l: {"k": "S", "n": l, "alts": [], "s": "", "z": False}
        alts = [[E(l)] for l in use]
        if len(alts) > 2:  # some inside a group, some repeated
            alts = alts[:2] + [[{"k": "B", "n": "", "alts": alts[2:], "s": "", "z": False}], [E(use[0])]]
        rules.append({"k": "P", "n": "start", "alts": alts, "re": ""})
        for i, l in enumerate(use):
            pats.append(seq([C(chr(c)) for c in lit_cps(l)]))
            names.append("_T_%d" % (i + 2))
    for i, t in enumerate(toks):
        if i == ws:
            rules.append({"k": "L", "n": "WHITE_SPACE", "alts": [], "re": wre})
            pats.append(wpat)
            names.append("WHITE_SPACE")
        re = wordy(rng, chars) if rng.random() < .5 else node(rng, chars, rng.randint(1, 3))
        s = spell(re, rng)
        if s == "":
            re, s = C("a"), "a"
        rules.append({"k": "L", "n": t, "alts": [], "re": "/" + s + "/"})
        pats.append(re)
        names.append(t)
    if ws >= n:
        rules.append({"k": "L", "n": "WHITE_SPACE", "alts": [], "re": wre})
        pats.append(wpat)
        names.append("WHITE_SPACE")
    if rng.random() < .25:  # defined again: the first definition counts
        for _ in range(rng.randint(1, 2)):
            i = rng.choice([i for i, r in enumerate(rules) if r["k"] == "L"])
            rules.insert(rng.randint(i + 1, len(rules)), {"k": "L", "n": rules[i]["n"], "alts": [], "re": rng.choice(["/again/", "/[a-z]/", "/./", rules[i]["re"]])})
    return {"rules": rules, "via": "build" if lits or rng.random() < .5 else "lr", "name": "Gen", "pats": pats, "names": names,
            "skip": [names.index("WHITE_SPACE") + 2]}


def text(rng, lx, n):
    out = []
    for _ in range(n):
        y = rng.random()
        if y < .75:
            out += sample(rng.choice(lx["pats"]), rng)
        elif y < .9:
            out += [ord(c) for c in rng.choice([" ", "\n", "\r\n", "  \n\t"])]
        elif y < .95:
            out.append(ord(rng.choice(CH)))
        elif out:
            out.pop()
    return out[:120]


def many(rng, n):
    """a lexer with many tokens: keywords, then the words they are cut from"""
    words = []
    while len(words) < n:
        w = "".join(rng.choice("abcdef") for _ in range(rng.randint(2, 5)))
        if w not in words:
            words.append(w)
    pats = [seq([C(ch) for ch in w]) for w in words] + [{"o": "plus", "x": S([[97, 122]]), "lazy": False}, WS]
    names = ["K%d" % (i * 7 % n) for i in range(n)] if n % 7 else ["K%d" % i for i in range(n)]
    names += ["WORD", "WHITE_SPACE"]
    rules = [{"k": "L", "n": k, "alts": [], "re": "/" + spell(p, rng) + "/"} for k, p in zip(names[:-1], pats)] + [{"k": "L", "n": "WHITE_SPACE", "alts": [], "re": "/[ \\r\\n\\t\\f]+/"}]
    return {"rules": rules, "via": "build", "name": "Gen", "pats": pats, "names": names, "skip": [len(names) + 1]}


def grouped(rng):
    """patterns whose spelling begins and ends with a bracket or an operator that does not span the whole"""
    ch = rng.sample(list("abcdefgh"), 8)
    w = lambda: seq([C(c) for c in rng.sample(ch, rng.randint(1, 2))])
    par = lambda x: "(" + spell(x, rng) + ")"
    rules, pats, names = [], [], []
    for i, form in enumerate(rng.sample(range(8), 6)):
        a, b, c = w(), w(), w()
        if form == 0:
            p, s = {"o": "alt", "a": [a, b]}, par(a) + "|" + par(b)
        elif form == 1:
            p, s = seq([a, b]), par(a) + par(b)
        elif form == 2:
            p, s = {"o": "alt", "a": [a, b, c]}, par(a) + "|" + spell(b, rng) + "|" + par(c)
        elif form == 3:
            p, s = {"o": "alt", "a": [a, b]}, par({"o": "alt", "a": [a, b]})
        elif form == 4:
            p, s = {"o": "alt", "a": [S([[ord(ch[0]), ord(ch[0])], [48, 48]]), S([[49, 57]])]}, "[%s0]|[1-9]" % ch[0]
        elif form == 5:
            p, s = {"o": "alt", "a": [a, {"o": "plus", "x": C("#"), "lazy": False}]}, par(a) + "|#+"
        elif form == 6:
            p, s = {"o": "alt", "a": [seq([a, {"o": "star", "x": b, "lazy": False}]), c]}, par(a) + par(b) + "*|" + par(c)
        else:
            p, s = {"o": "alt", "a": [a, b]}, "(?:%s)|(?:%s)" % (spell(a, rng), spell(b, rng))
        nm = NAMES[i]
        rules.append({"k": "L", "n": nm, "alts": [], "re": "/" + s + "/"})
        pats.append(p)
        names.append(nm)
    rules.append({"k": "L", "n": "WHITE_SPACE", "alts": [], "re": "/[ \\r\\n\\t\\f]+/"})
    pats.append(WS)
    names.append("WHITE_SPACE")
    return {"rules": rules, "via": rng.choice(["build", "lr"]), "name": "Gen", "pats": pats, "names": names, "skip": [len(names) + 1]}
