"""C17, C22: drawn pages. spec/Page, MC_Page, PageFile, MC_PageFile, TR_Draw."""
import copy, html, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import gen_tree as gt
from vlib import flat, replay, REPO, ToolError

HERE = os.path.dirname(os.path.abspath(__file__))
cps = lambda s: [ord(ch) for ch in s]


def evaluate(ck, paths):
    """What a browser's script engine makes of the pages (bin/page.mjs)."""
    n = min(8, max(1, len(paths)))
    res = [None] * len(paths)

    def go(k):
        ix = list(range(k, len(paths), n))
        a, b = ck.work.path("pages"), ck.work.path("loaded")
        json.dump([paths[i] for i in ix], open(a, "w"))
        p = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", os.path.join(HERE, "page.mjs"), a, b], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600, cwd=ck.work.dir)
        if p.returncode != 0 or not os.path.exists(b):
            raise ToolError("page evaluation failed: " + p.stdout[-2000:])
        for i, r in zip(ix, json.load(open(b))):
            res[i] = r
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(go, k) for k in range(n)]:
            f.result()
    return res


def shown(t):
    return [{"k": "R", "ix": str(x["ix"]), "nm": cps(x["nm"]), "n": x["n"]} if x["k"] == "R" else {"k": "T", "nm": cps(x["t"]["nm"]), "tx": cps(x["t"]["tx"])} for x in flat(t)]


def project(c, o):
    return {"case": {"title": cps(c.get("title", "t")), "tree": shown(c["tree"]), "kind": c.get("kind", ""), "script": [str(x) for x in c.get("script", [])]}, "obs": o}


def page(p):
    p = dict(p)
    p.setdefault("same", True)
    p.pop("msg", None)
    p["title"] = cps(html.unescape(p["title"]))
    return p


def draw(ck, cases):
    """Draws and evaluates; returns observations."""
    d = ck.work.path("draw")
    os.makedirs(d)
    for i, c in enumerate(cases):
        c["path"] = os.path.join(d, "%d.html" % i)
        c.setdefault("title", "t")
    obs = replay(ck.exe, ck.work, "draw", cases)
    pages = evaluate(ck, [c["path"] for c in cases])
    shutil.rmtree(d)
    for o, p in zip(obs, pages):
        if o and o["r"] == "ok":
            o["v"]["page"] = page(p)
    return obs


STR = ["a", "x`y", "\\", "\\\\`", "${pwned()}", "`+pwned()+`", "`});pwned();//", "</script>", "</SCRIPT >", "<!--<script>", "<!--", "-->", "]]>", "\n", "\r", "\r\n", "\n\r", "\t", "\u2028", "\u2029",
       "\u00a0", "\ufeff", "é", "田", "\U0001f600", "&lt;", "&amp;", "&#96;", "\"", "'", "{{ ast }}", "{{ast}}", "{% raw %}", "{% endraw %}", "{# x #}", "}}", "${", "$", "$$", "$${a}", "{", "}", "\\n", "\\u0041", "\\x3c", "\\0", "\\${pwned()}", "\\\n",
       "", " ", "  ", "'use strict'", "__proto__", "</script", "</style>", "<script src=x>", "//", "/*", "*/", "%", "\x08", "\x0b", "\x0c", "\x7f", "\x01", "\u200d", "children", "0", "null", "]", "[", ",", ";", "</title>", "\\u", "\\x", "\\8", "\\`${1}"]


TITLES = STR + ["</title><script>pwned()</script>", "</title><script type=\"module\">pwned()</script>", "</TITLE >x", "</title/>", "</titles>", "<title>", "&amp;amp;", "&ampx", "&lt;/title&gt;", "&#60;", "&#x3c;/title>", "&nbsp;", "&notit;",
                "&copy", "a&b=c", "AT&T", "a < b && c > d", "  a \t b  ", "-->", "<!-- </title> -->", "{{ name }}", "é & 田", "&&amp&lt", "&AMP;", "&quot;", "&#0;", "&#128;", "x" * 5000, "<" * 800]


def fill(rng, t, pool):
    for x in walk(t):
        if x["k"] == "R":
            x["nm"] = "".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 2])))
        else:
            x["t"]["nm"] = rng.choice(pool)
            x["t"]["tx"] = "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 4])))
    return t


def walk(t):
    yield t
    for x in t.get("ch", []):
        yield from walk(x)


PG = "CONSTANTS Level = \"%s\"\n N = %d\nSPECIFICATION MCSpec\nINVARIANTS EndsAtEnd ReadBack TitleBack\n%sCHECK_DEADLOCK FALSE\n"


def C17(ck):
    out = ck.work.path("mc")
    ck.model("MC_Page", PG % ("full", 3 if not ck.thorough else 4, "PROPERTY Ends\n"), {"MC_OUT": out})
    for lv in ("none", "quotes", "dollar", "markup", "lt", "amp"):
        ck.model_refutes("MC_Page", PG % (lv, 2, ""))
    strs = ["".join("script" if x == 1000 else chr(x) for x in json.loads(l)) for l in open(out)]
    ck.notes["exhaustive_strings"] = len(strs)
    rng = ck.rng()
    rng.shuffle(strs)
    cases = []
    step = 30
    for i in range(0, len(strs), step):
        q = strs[i:i + step]
        ch = [{"k": "E" if rng.random() < .2 else "T", "t": gt.tok(2, s if rng.random() < .3 else "T", s)} if rng.random() < .8 else gt.node(3, [], s) for s in q]
        cases.append({"tree": gt.node(1, ch, rng.choice(q))})
    for i in range(150 if not ck.thorough else 2500):
        t = gt.tree(rng, rng.choice([1, 3, 8, 20]))
        fill(rng, t, STR if i % 3 else STR[:12])
        for x in walk(t):
            if x["k"] == "R":
                x["ix"] = rng.choice([0, 1, 8, 9, 77, 4294967296, "18446744073709551615"])
        cases.append({"tree": t})
    cases += [{"tree": gt.node(0, [], s)} for s in STR] + [{"tree": gt.node(0, [{"k": "T", "t": gt.tok(2, "N", s)}, {"k": "T", "t": gt.tok(2, s, "")}])} for s in STR]
    every = [chr(i) for i in list(range(1, 256)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10ffff, 0xe000, 0xd7ff]]
    cases += [{"tree": gt.node(0, [{"k": "T", "t": gt.tok(2, a % x, b % x)} for x in every] + [gt.node(1, [], b % x) for x in every])} for a, b in (("%s", "%s"), ("a%sb", "\\%s"), ("<%s", "$%s"), ("&%s;", "`%s`"))]
    cases += [{"tree": fill(rng, gt.chain(rng, d), STR)} for d in (60, 300)] + [{"tree": gt.node(0, [gt.leaf(rng) for _ in range(500)])}, {"tree": gt.node(0, [{"k": "T", "t": gt.tok(2, "N", "`\\$<" * 5000)}])}]
    for c in cases:
        c["tree"] = json.loads(json.dumps(c["tree"]))
    # titles: the model's strings, then hostile ones; what the tree holds must not matter
    word = {1000: "script", 1001: "title", 1002: "amp", 1003: "lt"}
    ttl = ["".join(word[x] if x in word else chr(x) for x in json.loads(l)) for l in open(out + ".t")]
    ck.notes["exhaustive_titles"] = len(ttl)
    keep = [t for t in ttl if len(t) < 7 or "</title" in t]
    rng.shuffle(keep)
    ttl = keep[:400 if not ck.thorough else 5000] + TITLES
    for i in range(len(ttl)):
        if i >= len(cases):
            cases.append({"tree": json.loads(json.dumps(gt.node(0, [gt.leaf(rng)])))})
    for i, c in enumerate(cases):
        c["title"] = ttl[i] if i < len(ttl) else "".join(rng.choice(STR) for _ in range(rng.choice([1, 1, 2, 3])))
    obs = draw(ck, cases)
    ck.conform("draw", "TR_Draw", cases, project=project, env={"TR_WANT": "page"}, obs=obs)
    ck.assumptions.append("a page is read by the HTML tokenizer and module-evaluation rules implemented in bin/page.mjs on Node; NUL is excluded as stated")


PF = "CONSTANTS PageLen = 4\n Mode = \"%s\"\n N = %d\nSPECIFICATION MCSpec\nINVARIANTS WholePage %s\n%sCHECK_DEADLOCK FALSE\n"


def tail():
    try:
        s = open(REPO + "/src/tool/templates/gui/ast.html", "rb").read()
    except OSError:
        return b""
    for m in (b"}}", b"%}"):
        s = s[s.rfind(m) + 2:] if m in s else s
    return s.rstrip()


def faults(ck, cases):
    d = ck.work.path("draw")
    os.makedirs(d)
    for i, c in enumerate(cases):
        c["path"] = os.path.join(d, "none", "%d.html" % i) if c["kind"] == "noparent" else os.path.join(d, "%d.html" % i)
        c["full"] = os.path.join(d, "%d.full.html" % i)
    obs = replay(ck.exe, ck.work, "drawfault", cases)
    pages = evaluate(ck, [c["full"] for c in cases])
    tl = tail()
    for c, o, p in zip(cases, obs, pages):
        if o and o["r"] == "ok":
            o["v"]["page"] = page(p)
            try:
                o["v"]["page"]["tail"] = open(c["full"], "rb").read().rstrip().endswith(tl)
            except OSError:
                o["v"]["page"]["tail"] = False
            ck.notes["write_calls"] = ck.notes.get("write_calls", 0) + len(o["v"]["writes"])
            ck.notes["visible_failures"] = ck.notes.get("visible_failures", 0) + (not o["v"]["ok"])
    shutil.rmtree(d)
    return obs


def C22(ck):
    out = ck.work.path("mc")
    ck.model("MC_PageFile", PF % ("all", 3 if not ck.thorough else 5, "Visible", "PROPERTY Finishes\n"), {"MC_OUT": out})
    for m in ("once", "keepold", "drop", "samelen", "prefix"):
        ck.model_refutes("MC_PageFile", PF % (m, 2, "", ""))
    scripts = [json.loads(l) for l in open(out)]
    rng = ck.rng()
    if ck.thorough:
        rng.shuffle(scripts)
        scripts = scripts[:3000]
    small = gt.node(0, [{"k": "T", "t": gt.tok(2, "ID", "x")}])
    big = lambda k: gt.node(0, [{"k": "T", "t": gt.tok(2, "N%d" % i, "y" * 40)} for i in range(k)])
    cases = []
    for s in scripts:
        t = small if rng.random() < .8 else big(rng.choice([100, 900]))
        k = rng.choice([1, 7, 4096, 8192, 9000])
        cases.append({"tree": t, "kind": "file", "pre": rng.choice([-1, 0, 5, 200000, -2, -3, -4, -5, -8]), "script": [{"b0": 0, "b1": k, "b2": 12000}.get(x, x) for x in s]})
    for pre in (-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 100, 20000, 100000, 1000000):
        for t in (small, big(50), big(1000)):
            cases.append({"tree": t, "kind": "file", "pre": pre, "script": []})
    for kind in ("dir", "full", "noparent", "link", "dangling"):
        for t in (small, big(1000)):
            cases.append({"tree": t, "kind": kind, "pre": -1, "script": []})
    for k in range(0, 30):  # a failure after any number of accepted pieces
        cases.append({"tree": big(300), "kind": "file", "pre": rng.choice([-1, 300000]), "script": [rng.choice([1, 512, 4096, 8192])] * k + [rng.choice(["nospc", "io", "intr", 0])]})
    for i in range(20 if not ck.thorough else 400):
        cases.append({"tree": fill(rng, gt.tree(rng, 15), STR), "kind": "file", "pre": rng.choice([-1, 7, 90000]), "script": [rng.choice([1, 100, 5000, "intr"]) for _ in range(rng.randint(0, 40))]})
    for c in cases:
        c["tree"] = json.loads(json.dumps(c["tree"]))
        c["title"] = "t"
    obs = faults(ck, cases)
    for i in range(0, len(cases), 700):
        ck.conform("drawfault", "TR_Draw", cases[i:i + 700], project=project, env={"TR_WANT": "file"}, obs=obs[i:i + 700])
    if ck.notes.get("write_calls", 0) == 0:
        raise ToolError("no write call was seen: the fault injector is not in place")


def redo(mode):
    def f(ck, cases):
        return draw(ck, cases) if mode == "draw" else faults(ck, cases)
    return f


C17.project = {"draw": project}
C22.project = {"drawfault": project}
C17.observe = {"draw": redo("draw")}
C22.observe = {"drawfault": redo("drawfault")}
CHECKS = {"C17": C17, "C22": C22}
