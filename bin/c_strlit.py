"""C21: string literals. spec/Literals, MC_Lits, TR_Lits."""
import copy, json
import gen_ebnf as ge

cps = lambda s: [ord(ch) for ch in s]


def raw_rules(rules):
    """names and literals as code points"""
    r = copy.deepcopy(rules)

    def al(as_):
        for a in as_:
            for e in a:
                if e["k"] == "S":
                    e["n"] = cps(e["n"])
                al(e["alts"])
    for d in r:
        al(d["alts"])
    return r


def project(c, o):
    o = copy.deepcopy(o)
    if o["r"] == "ok" and o["v"]["pass"]["res"] == "ok":
        for t in o["v"]["pass"]["ts"]:
            t["nm"] = cps(t["nm"])
    if o["r"] == "ok":
        o["v"]["full"] = {"res": o["v"]["full"]["res"]}
    return {"case": {"rules": raw_rules(c["rules"]), "probes": c["probes"]}, "obs": o}


META = list("+*?.()[]{}|^$\\/#&-~ab0Az_ \"<>=:;,!@%`'") + ["\n", "\t", "\r", "\x07", "\x0b", "\x0c", "é", "田", "ε", "\U0001f600", "\u0301", "ſ", "K"]


def quote(rng, s):
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in "\\'":
            out += "\\" + ch
        elif ch in "\n\t\r\x07\x0b\x0c":
            out += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\x07": "\\a", "\x0b": "\\v", "\x0c": "\\f"}[ch] if rng.random() < .8 else "\\u{%x}" % o
        elif rng.random() < .06:
            out += rng.choice(["\\u{%x}", "\\u{0%x}", "\\u{0x%x}"]) % o
        else:
            out += ch
    return "'" + out + "'"


def text(rng):
    x = rng.random()
    if x < .25:
        return rng.choice(META)
    if x < .35:
        return rng.choice(["if", "else", "while", "==", "->", "::=", "\\n", "\\\\n", "\\d", "\\w+", "a|b", "[a-z]", "(?i)a", "^a", "a$", "a{2}", ".*", "x*", "\\'", "''", "'", "\\", "//", "/*", "a.b", "(a)", "\\u{41}", "u{41}", "&&", "a-b", "#", "# x", " "])
    return "".join(rng.choice(META) for _ in range(rng.choice([1, 2, 2, 3, 5, 9])))


def probes(rng, texts):
    out = list(texts)  # each literal's own text tells it from the others
    for s in texts:
        out += [s, s + rng.choice(META), s[:-1], rng.choice(META) + s, s + s, s.upper(), s.lower(), s[::-1]]
        if s:
            i = rng.randrange(len(s))
            out += [s[:i] + rng.choice(META) + s[i + 1:], s[:i] + s[i + 1:], s[:i] + s[i] * 2 + s[i + 1:], "\\" + s, s.replace("\n", "\\n"), s.replace("\\", ""), s.replace("\r", "\n")]
    out += ["", "a", "aaa", "7", " ", "\n"]
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return [cps(p) for p in seen[:max(160, len(texts) + 20)]]


def grammar(rng, lits):
    """every literal somewhere, some twice, at random depths"""
    pend = list(lits) + [rng.choice(lits) for _ in range(rng.randint(0, 3))] if lits else []
    rng.shuffle(pend)

    def el(d):
        x = rng.random()
        if d < 5 and x < .35:
            return ge.E("B", "", [[el(d + 1) for _ in range(rng.randint(0 if rng.random() < .2 else 1, 2))] for _ in range(rng.randint(1, 2))], rng.choice(["", "", "*", "?", "+"]))
        s = rng.choice(["", "", "*", "?", "+"])
        if pend and x < .9:
            return ge.E("S", pend.pop(), (), s)
        return ge.E("T", rng.choice(["ID", "NUM"]), (), s) if x < .95 else ge.E("N", "stat", (), s)
    ps = [ge.P(n, [[el(0) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]) for n in ge.NAMES[:rng.randint(1, 3)]]
    deep = rng.random() < .2
    while pend:
        e = ge.E("S", pend.pop())
        for _ in range(rng.randint(0, 12 if deep else 2)):
            e = ge.E("B", "", [[e]], rng.choice(["", "?", "*"]))
        rng.choice(ps)["alts"].append([e])
    return ge.shuffle_defs(rng, ps, [ge.L("ID", "/[a-z]+/"), ge.L("NUM", "/[0-9]+/")])


MC = "CONSTANTS Variant = \"%s\"\n K = %d\nSPECIFICATION MCSpec\nINVARIANTS Numbered OneEach InOrder\n%sCHECK_DEADLOCK FALSE\n"


def C21(ck):
    out = ck.work.path("mc")
    ck.model("MC_Lits", MC % ("ok", 2 if not ck.thorough else 3, "PROPERTY Ends\n"), {"MC_OUT": out})
    for v in ("nodedup", "flat"):
        ck.model_refutes("MC_Lits", MC % (v, 1, ""))
    small = ["".join(map(chr, json.loads(l))) for l in open(out)]
    rng = ck.rng()
    rng.shuffle(small)
    cases = []
    den = {}

    def add(pairs):
        seen, q = set(), []
        for t, r in pairs:  # one spelling per text
            if t not in seen:
                seen.add(t)
                q.append((t, r))
        cases.append({"rules": grammar(rng, [r for _, r in q]), "probes": probes(rng, [t for t, _ in q])})
    esc = {"n": "\n", "r": "\r", "\\": "\\", "'": "'"}

    def plain(raw):  # texts of the exported literals, for choosing probes only
        s, i, o = raw[1:-1], 0, ""
        while i < len(s):
            if s[i] != "\\":
                o += s[i]; i += 1
            elif s[i + 1] == "u":
                j = s.index("}", i)
                o += chr(int(s[i + 3:j].replace("0x", ""), 16)); i = j + 1
            else:
                o += esc[s[i + 1]]; i += 2
        return o
    for i in range(0, len(small), 6):
        add([(plain(r), r) for r in small[i:i + 6]])
    for i in range(400 if not ck.thorough else 5000):
        ts = [text(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
        if rng.random() < .02:
            ts.append("")
        if ts and rng.random() < .3:
            ts += [ts[0] + "x", ts[0][:1], ts[-1].upper()]
        add([(t, quote(rng, t)) for t in ts])
    add([("k%d" % i, "'k%d'" % i) for i in range(12)])
    add([("k%d" % i, "'k%d'" % i) for i in range(265)])
    for i in range(6 if not ck.thorough else 40):  # several spellings of one text are several literals
        ts = [rng.choice([c for c in META if c not in "\\'"]) + rng.choice(["", "b"]) for _ in range(2)]
        ls = [x for t in ts for x in rng.sample(["'%s'" % t if t[0] >= " " else quote(rng, t), "'\\u{%x}%s'" % (ord(t[0]), t[1:]), "'\\u{0%x}%s'" % (ord(t[0]), t[1:]), "'\\u{0x%x}%s'" % (ord(t[0]), t[1:])], 3)]
        cases.append({"rules": grammar(rng, list(dict.fromkeys(ls))), "probes": probes(rng, ts)})
    add([(s, quote(rng, s)) for s in ("abc" * 90, "é+" * 130)])
    ck.conform("strlit", "TR_Lits", cases, project=project)
    ck.notes["literals"] = sum(len(ge.lits(c["rules"])) for c in cases)
    ck.assumptions.append("the escape \\d and code points outside Unicode, whose meaning the grammar language leaves open, are not used")


C21.project = {"strlit": project}
CHECKS = {"C21": C21}
