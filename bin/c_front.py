"""C23: a generated lexer and the parser built from the same grammar tree. spec/Front, MC_Front, TR_Front."""
import copy
import gen_ebnf as ge
import gen_regex as gr
from c_lex import compile_lexers
from vlib import ToolError, flat, replay

MC = """CONSTANTS KeyById = FALSE
 MaxLen = %d
 Wide = %s
SPECIFICATION MCSpec
INVARIANTS Meaning Located
PROPERTY Ends_
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANT KeyById = FALSE\nSPECIFICATION TrSpec\nVIEW PathView\nCHECK_DEADLOCK FALSE\n"
WORDS = ["if", "else", "end", "fn", "let", "do", "of", "+", "-", "*", "(", ")", "[", "]", "{", "}", ";", ",", "=", "==", "=>", ":=", ":", "<", "<=", "/", "//", "\\", "\"", "\"#", "é", "田", "lét", "a", "ab", "abc", "|", "^", "$", ".", "..",
         "#", "{{", "}}", "{%", "%}", "&lt;", "i f", "a\nb", "#}"]
plus = lambda x: {"o": "plus", "x": x, "lazy": False}
star = lambda x: {"o": "star", "x": x, "lazy": False}
CLASSES = [gr.seq([gr.S([[97, 122]]), star(gr.S([[97, 122], [48, 57], [95, 95]]))]), plus(gr.S([[48, 57]])), gr.seq([gr.C("\""), star(gr.S([[34, 34]], True)), gr.C("\"")]),
           gr.seq([gr.C("'"), star({"o": "alt", "a": [gr.seq([gr.C("\\"), gr.C("'")]), gr.S([[39, 39], [92, 92]], True)]}), gr.C("'")]), plus(gr.S([[0x4e00, 0x9fa5]])), gr.S([[48, 57]]),
           gr.seq([plus(gr.S([[48, 57]])), {"o": "opt", "x": gr.seq([gr.C("."), plus(gr.S([[48, 57]]))]), "lazy": False}]), gr.seq([gr.C("#"), star(gr.S([[10, 10]], True))]), gr.seq([gr.C("<"), plus(gr.S([[97, 122], [10, 10]])), gr.C(">")])]
cps = lambda s: [ord(c) for c in s]


def dress(rng, g):
    """gives every token a pattern; -> rules, {name: pattern}"""
    g = copy.deepcopy(g)
    pats = {l: gr.seq([gr.C(chr(c)) for c in gr.lit_cps(l)]) for l in ge.lits(g)}
    words, classes = rng.sample(WORDS, len(WORDS)), rng.sample(CLASSES, len(CLASSES))
    for r in g:
        if r["k"] == "L" and r["n"] not in pats:
            x = rng.random()
            p = gr.seq([gr.C(c) for c in words.pop()]) if x < .75 or not classes else classes.pop() if x < .95 else gr.node(rng, list("abé01 \n"), 2)
            s = gr.spell(p, rng)
            if s == "":
                p, s = gr.C("a"), "a"
            if x < .75 and rng.random() < .2:  # one of two words, each in brackets
                q = gr.seq([gr.C(c) for c in words.pop()])
                p, s = {"o": "alt", "a": [p, q]}, "(%s)|(%s)" % (s, gr.spell(q, rng))
            pats[r["n"]] = p
            r["re"] = "/" + s + "/"
    at = rng.randint(0, len(g))
    g.insert(at, ge.L("WHITE_SPACE", "/[ \\r\\n\\t\\f]+/"))
    pats["WHITE_SPACE"] = gr.WS
    for _ in range(rng.choice([0, 0, 1, 2])):  # tokens defined again: the first definition counts
        i = rng.choice([i for i, r in enumerate(g) if r["k"] == "L"])
        g.insert(rng.randint(i + 1, len(g)), ge.L(g[i]["n"], rng.choice(["/again/", "/[a-z]/", "/./", g[i]["re"]])))
    return g, pats


def grammars(rng, n):
    out = []
    while len(out) < n:
        g = ge.forms(rng) if len(out) % 6 == 4 else ge.ll1(rng) if len(out) % 3 == 0 else ge.ll1_rich(rng)
        if g is None or ge.shortest(g)[ge.first_rule(g)] is None:
            continue
        if rng.random() < .5:
            g = ge.stir(rng, g)
        if len(out) % 2:
            g = ge.literalise(rng, g)
        out.append(dress(rng, g))
    # a statement language with everything in it
    E, P, L = ge.E, ge.P, ge.L
    big = [P("prog", [[E("N", "stmt", (), "*")]]),
           P("stmt", [[E("S", "'let'"), E("T", "ID"), E("B", "", [[E("S", "':'"), E("T", "ID")]], "?"), E("S", "'='"), E("N", "expr"), E("S", "';'")],
                      [E("S", "'{'"), E("N", "stmt", (), "*"), E("S", "'}'")], [E("S", "'if'"), E("N", "expr"), E("S", "'do'"), E("N", "stmt"), E("B", "", [[E("S", "'else'"), E("N", "stmt")], [E("S", "'end'")]])]]),
           P("expr", [[E("N", "atom"), E("B", "", [[E("B", "", [[E("S", "'+'")], [E("S", "'-'")]]), E("N", "atom")]], "*")]]),
           P("atom", [[E("T", "ID"), E("N", "args", (), "?")], [E("T", "NUM")], [E("T", "STR")], [E("S", "'('"), E("N", "expr"), E("S", "')'")]]),
           P("args", [[E("S", "'['"), E("B", "", [[E("N", "expr"), E("B", "", [[E("S", "','"), E("N", "expr")]], "*")]], "?"), E("S", "']'")]])]
    pats = {l: gr.seq([gr.C(c) for c in l[1:-1]]) for l in ge.lits(big)}
    for nm, p in (("ID", CLASSES[0]), ("NUM", CLASSES[6]), ("STR", CLASSES[3])):
        big.insert(rng.randint(1, len(big)), L(nm, "/" + gr.spell(p, rng) + "/"))
        pats[nm] = p
    big.append(L("WHITE_SPACE", "/[ \\r\\n\\t\\f]+/"))
    pats["WHITE_SPACE"] = gr.WS
    return out + [(big, pats)]


GAPS = [" ", " ", " ", "\n", "\r\n\t", "  ", "\n\n", "\x0c", ""]


def texts(rng, g, pats, n):
    toks = [t for t in pats if t != "WHITE_SPACE"]
    used = {x for r in g if r["k"] == "P" for x in names(r["alts"])}
    out = [[], cps(" \n")]
    for i in range(n):
        w = ge.sentence(rng, g, 25)
        if w is None:
            w = [rng.choice(toks) for _ in range(rng.randint(0, 4))]
        if i % 3 == 1:
            w = ge.mutate(rng, w, toks)
        elif i % 9 == 3:
            w = w[:rng.randint(0, len(w))]
        t = cps(rng.choice(["", "", " ", "\n"]))
        tight = rng.random() < .2
        for k in w:
            t += gr.sample(pats[k], rng) + cps("" if tight else rng.choice(GAPS))
        if i % 7 == 5:
            at = rng.randint(0, len(t))
            t[at:at] = cps(rng.choice(["\x01", "?", "\u00a0", "~", "\x0b", "a", "1", " ", "\""]))
        if len(t) < 160:
            out.append(t)
    w = None
    for _ in range(20):  # a long text
        v = ge.sentence(rng, g, 400)
        w = v if v and (w is None or len(v) > len(w)) else w
    if w and len(w) > 25:
        out.append([c for k in w for c in gr.sample(pats[k], rng) + cps(rng.choice(" \n"))])
    return out


def names(alts):
    for a in alts:
        for e in a:
            if e["k"] in "TS":
                yield e["n"]
            yield from names(e["alts"])


def project(c, o):
    o = copy.deepcopy(o)
    v = o["v"]
    if o["r"] == "ok":
        if v["res"] == "ok":
            v["tree"] = flat(v["tree"][0])
        v.setdefault("tree", []); v.setdefault("ts", []); v.setdefault("trep", False); v.setdefault("rep", False)
    return {"case": {"rules": c["rules"], "text": c["text"], "pats": c["pats"]}, "obs": o}


def C23(ck):
    ck.model("MC_Front", MC % (2, "FALSE") if not ck.thorough else MC % (3, "TRUE"), timeout=3000)
    rng = ck.rng()
    gs = grammars(rng, 24 if not ck.thorough else 140)
    obs = replay(ck.exe, ck.work, "render", [{"rules": g, "via": "build", "name": "Gen"} for g, _ in gs])
    for (g, p), o in zip(gs, obs):
        if o is None or o["r"] != "ok":
            ck.violation("render", "TR_Front", {"rules": g}, {"obs": o}, "generating the lexer ended with %s" % (o and o["r"]))
    if ck.viol:
        return
    exe, bad = compile_lexers([o["v"]["src"] for o in obs], [sorted({r["n"] for r in g if r["k"] == "L"}) for g, _ in gs])
    for i in sorted(bad):
        ck.violation("render", "TR_Front", {"rules": gs[i][0]}, {"src": obs[i]["v"]["src"]}, "the generated lexer does not compile: " + bad[i])
    if bad:
        return
    cases = []
    for i, (g, p) in enumerate(gs):
        pl = [{"n": k, "p": v} for k, v in p.items()]
        per = 22 if not ck.thorough else 60
        cases += [{"lexer": i, "rules": g, "text": t, "pats": pl} for t in texts(rng, g, p, per * 3 if i == len(gs) - 1 else per)]
    obs = replay(exe, ck.work, "front", cases)
    for i in range(0, len(cases), 3000):
        ck.conform("front", "TR_Front", cases[i:i + 3000], project=project, obs=obs[i:i + 3000], cfg=CFG)
    ck.notes["generated_front_ends"] = len(gs)
    if ck.tlc.tags.get("READ", 0) < len(cases) // 5 and not ck.viol:
        raise ToolError("hardly any text of a language was read")


C23.project = {"front": project}
CHECKS = {"C23": C23}
