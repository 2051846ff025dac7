"""C09, C10: the two built-in lexers. spec/Lexer.tla, Patterns.tla, MC_Lexer, TR_Lexer."""
import itertools, json, os

MC = """CONSTANTS Alphabet = {%s}
MaxLen = %d
Which = "%s"
ExportLen = %d
SPECIFICATION MCSpec
INVARIANTS Covers Where OneStop Matcher Winner
PROPERTY Stops
CHECK_DEADLOCK FALSE
"""
cps = lambda s: [ord(ch) for ch in s]
# characters on which the patterns of the grammar language branch
ALPH = cps("aZ0_:=->|;*+?()'\\/u{}n.~# \n\r\t\x0b\x0cé\u03b5\u7530\U0001f600f")
FRAGS = ["rule", "Tok", "a1", "_x", "aa", "A_", "epsilon", "epsilo", "epsilonx", "ε", "εε", "fragment", "fragments", "fragmen", "::=", ":=", "->", "=>",
         ":", "=", "::", "-", ">", ";", "|", "*", "+", "?", "(", ")", "''", "'a'", "'\\n'", "'\\''", "'\\\\'", "'\\u{0x1f}'", "'\\u{01}'", "'\\u{}'", "'\\x'",
         "'a\nb'", "'9'", "'é田'", "'\\d\\a\\f\\v\\t\\r'", "'", "/a/", "/\\//", "/a\\/b/", "//", "// c\n", "// c", "/* x */", "/* x\ny */", "/*", "*/", "/**/", "/a\nb/",
         "/", "\\/", " ", "  ", "\n", "\r\n", "\t", "\x0c", "\x0b", "\u00a0", "\u2028", ".", "..", "...", "~", "#", "é", "田", "\U0001f600", "x", "Z", "9", "0x", "{", "}", "\\", "\"", "\0",
         "/[a-z]+/", "/'(\\\\|x)*'/", "'/'", "/'/", "'|'", "/*a*/", "/*é\n*/ ", "'a\\'", "/\\//", "aé", "A9_z", "e\u0301", "\u0665", "'\u0665'", "\u00e9x", "Ab\u00e9"]


def rand_text(rng, n):
    x = rng.random()
    if x < .15:
        return [rng.choice(ALPH) for _ in range(rng.randint(0, n))]
    # few different pieces per text, so that they meet again
    fr = rng.sample(FRAGS, rng.randint(2, 7)) if rng.random() < .6 else FRAGS
    out = []
    while len(out) < n:
        y = rng.random()
        if y < .05:
            out += [rng.choice(ALPH)]
        elif y < .08:
            out += [rng.choice([rng.randrange(0, 0xd800), rng.randrange(0xe000, 0x110000), rng.randrange(128)])]
        elif y < .5:
            out += cps(rng.choice([" ", "\n", "  ", "\r\n"])) if rng.random() < .5 else cps(rng.choice(FRAGS[:24] if fr is FRAGS else fr))
        else:
            out += cps(rng.choice(fr))
    return out[:n + 12]


CLEAN = ["rule", "Tok", "a1b", "TK_9", "ε", ":", "::=", "->", ";", "|", "*", "+", "?", "(", ")", "'x'", "'\\n é'", "/[a-z]+/", "/\\/田/", "epsilon"]


def clean_text(rng, n):
    """no unmatched piece: the whole text is scanned"""
    out = []
    for _ in range(n):
        out += cps(rng.choice(CLEAN)) + cps(rng.choice([" ", "\n", "\n\n  ", "\t", "\r\n", " "]))
    return out


def texts(rng, n, long):
    t = [rand_text(rng, rng.choice([3, 6, 10, 20, 40])) for _ in range(n)]
    t += [clean_text(rng, rng.randint(1, 30)) for _ in range(n // 3)]
    for m in long:
        t += [clean_text(rng, m), cps("ab\n") * m, cps("x1 ") * m, cps("\n" * m), cps("'" + "a" * m + "'\n") + cps("ab;") * 3, cps("/* " + "é\n" * (m // 2) + "*/ab"),
              cps("/" + "ab" * m + "/;")]
    return t


def wrapped(al, n, a, b):
    """every body up to length n over al between two delimiters"""
    return [cps(a + "".join(w) + b) for k in range(n + 1) for w in itertools.product(al, repeat=k)]


# the delimited tokens with every short body, and every character in every kind of token
def bodies(big):
    d = 4 if big else 3
    return (wrapped("*/a\r\n", d, "/*", "*/ab*/") + wrapped("*/a\r\n", d, "//", "\nab") + wrapped("'\\u{}a\n" if big else "'\\ua\n", d, "'", "'ab'") +
            wrapped("/\\a\n'", d, "/", "/ab/"))


CTX = ["A%sb ", "a%sb ", "%sA", "%sa", "'%s'", "'\\%s'", "/%s/", "/\\%s/", "//%s\na", "/*%s*/a", ":%s=", "-%s>", "\n%s;", "epsilon%s", "fragment%s"]
MORE = [0x100, 0x131, 0x17f, 0x1c5, 0x2b0, 0x301, 0x345, 0x3b5, 0x3f5, 0x430, 0x5d0, 0x660, 0x661, 0x966, 0xe01, 0x1680, 0x1e9e, 0x2000, 0x200b, 0x200d, 0x2028, 0x2029,
        0x203f, 0x2160, 0x212a, 0x3000, 0x3007, 0x4e00, 0xfeff, 0xff10, 0xff21, 0xff3f, 0xff41, 0x10400, 0x1d400, 0x1d7ce, 0x1f600, 0xe0100, 0x10ffff]


def escapes():
    """unicode escapes: every prefix and short digit string"""
    return [cps("'\\u{" + a + "".join(w) + "}'" + z) for a in ("", "0x", "0", "0X", "x", "00x", "#", "\\") for k in range(4) for w in itertools.product("0fFg" if k < 3 else "9aA", repeat=k)
            for z in ("", "'")] + [cps(x) for x in ("'\\u'", "'\\u{'", "'\\u{1'", "'\\u1}'", "'\\u{1}}'", "'\\u{{1}}'", "'\\u{1 }'", "'\\U{1}'", "'\\u{1}\\u{2}'", "'\\u{10ffff}a'")]


def contexts():
    return escapes() + [cps(x.replace("%s", chr(ch))) for x in CTX for ch in list(range(256)) + MORE]


def run(want):
    def go(ck):
        short = ck.work.path("short")
        toy = MC % ("97, 98, 10, 233", 5 if ck.thorough else 4, "toy", 0)
        ck.model("MC_Lexer", toy)
        # texts over the characters on which the patterns branch, exhaustively, from the model
        A = "97, 39, 92, 47, 58, 61, 10, 949" if not ck.thorough else "97, 90, 39, 92, 47, 58, 61, 42, 10, 949"
        ck.model("MC_Lexer", MC % (A, 3, "v1", 3), {"MC_OUT": short})
        ck.model("MC_Lexer", MC % ("97, 47, 42, 39, 10, 46", 3 if not ck.thorough else 5, "boot", 0))
        rng = ck.rng()
        ts = [json.loads(l) for l in open(short)]
        if ck.thorough:
            ts += [[a, b, d] for a in ALPH for b in ALPH for d in ALPH]
            ts += [[a, b] for a in ALPH for b in ALPH]
        else:
            ts += [[a, b] for a in ALPH for b in ALPH] + [[a] for a in range(256)]
        ts += [cps("\n" * 3000 + "ab;"), cps("ab") * 1500 + cps(" é;"), cps("/*" + "\né" * (1500 if want == "pos" else 200) + "*/ab"), cps("ab:\n") * 700]
        # every character at the beginning, at the end and in the middle of a text
        ts += [cps(x.replace("%s", chr(ch))) for x in ("%sab:", "ab:%s", "ab\n%sBB;") for ch in list(range(256)) + MORE if want == "pos" or ch > 127 or x[0] == "%"]
        if want == "class":
            ts += bodies(ck.thorough) + contexts()
        if want == "pos":  # beyond 16-bit line, column and byte counts
            ts += [cps("\n" * 66000 + "ab;\n ab"), cps("ab;" + " " * 66000 + "ab\n;")]
        ck.notes["exhaustive_short_texts"] = len(ts)
        ts += texts(rng, 900 if not ck.thorough else 12000, [80, 300] if not ck.thorough else [80, 300, 700])
        cases = [{"who": w, "input": t} for t in ts for w in ("v1", "boot")]
        for i in range(0, len(cases), 12000):
            ck.conform("lex", "TR_Lexer", cases[i:i + 12000], env={"TR_WANT": want})
        ck.assumptions.append("patterns of the grammar language are specified as syntax trees in spec/Patterns.tla; columns count bytes, as stated in the property")
    return go


CHECKS = {"C09": run("pos"), "C10": run("class")}


# ---- C11: generated lexers -----------------------------------------------------------------
import fcntl, shutil, subprocess
import gen_regex as gr
import vlib
from vlib import ToolError, VERIF, TARGET, REPO, cargo_env, replay, load_findings

GEN = os.path.join(VERIF, "harness", "genlex")
# the lexers the known-findings file lists: rules and why the rendered source does not compile
BAD = {
    "C11-rawstring": [("Q", "/\"####/")],
    "C11-Self": [("Self", "/a/")],
    "C11-barecr": [("CR", "/\r/")],
}


def compile_lexers(srcs, names):
    """Writes and compiles the generated sources; -> (exe, {lexer: error}), exe None when some do not compile."""
    d = os.path.join(GEN, "src", "gen")
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        mod = ["use serde_json::{json, Value};"]
        arms, tarms = [], []
        for i, (s, ns) in enumerate(zip(srcs, names)):
            open(os.path.join(d, "l%d.rs" % i), "w", newline="").write(s)
            mod.append("#[allow(non_upper_case_globals)]\nmod l%d;" % i)
            k = ", ".join("(\"%s\", l%d::GenLexer::%s as usize)" % (n, i, n) for n in ns)
            arms.append("%d => { let mut v = crate::lex::drive(|| l%d::GenLexer::new(input), max); let k: Vec<(&str, usize)> = vec![%s]; v[\"consts\"] = json!(k); "
                        "v[\"names\"] = json!(l%d::GenLexer::new(\"\").token_names); v }" % (i, i, k, i))
            tarms.append("%d => l%d::GenLexer::new(input).scan_all_on_channel_tokens(0)" % (i, i))
        mod.append("use syntaxis::runtime::{lexer::Lexer, token::Token};\npub fn tokens(n: usize, input: &str) -> Vec<Token> {\n match n {\n" + ",\n".join(tarms) + ",\n _ => panic!() } }")
        mod.append("pub fn run(n: usize, input: &str) -> Value {\n let max = input.chars().count() + 8;\n match n {\n" + ",\n".join(arms) + ",\n _ => panic!() } }")
        open(os.path.join(d, "mod.rs"), "w").write("\n".join(mod))
        subprocess.run(["cargo", "clean", "--offline", "-p", "genlex"], cwd=GEN, env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format", "json"], cwd=GEN, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        bad = {}
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            m = m.get("message") or {}
            if isinstance(m, dict) and m.get("level") == "error":
                for sp in m.get("spans", []):
                    f = os.path.basename(sp["file_name"])
                    if f[0] == "l" and f[1:-3].isdigit():
                        bad.setdefault(int(f[1:-3]), m["message"])
                    elif f == "mod.rs":  # a constant or type the generated source should have exposed
                        ln = open(os.path.join(d, "mod.rs")).read().splitlines()[sp["line_start"] - 1]
                        if " => {" in ln:
                            bad.setdefault(int(ln.split(" =>")[0]), m["message"])
        shutil.rmtree(d, ignore_errors=True)
        if r.returncode != 0:
            if not bad:
                raise ToolError("generated lexers do not build:\n" + r.stderr[-2000:] + r.stdout[-3000:])
            return None, bad
        exe = os.path.join(TARGET, "debug", "genlex")
        return exe, {}


def rendered(ck, lxs):
    obs = replay(ck.exe, ck.work, "render", [{"rules": l["rules"], "via": l["via"], "name": "Gen"} for l in lxs])
    return obs


def C11(ck):
    ck.model("MC_Lexer", MC % ("97, 98, 10, 233", 5 if ck.thorough else 4, "toy", 0))
    rng = ck.rng()
    n = 36 if not ck.thorough else 160
    lxs = [gr.lexer(rng, rng.randint(1, 8), i % 3 == 0) for i in range(n)]
    lxs += [gr.grouped(rng) for _ in range(3 if not ck.thorough else 12)]
    lxs.append(gr.many(rng, 120))
    obs = rendered(ck, lxs)
    row = lambda l, o: {"case": {"who": "gen", "input": [], "pats": l["pats"], "names": l["names"], "skip": l["skip"]}, "obs": o}
    for l, o in zip(lxs, obs):
        if o is None or o["r"] != "ok":
            ck.violation("render", "TR_Lexer", l, row(l, o), "rendering the lexer ended with %s" % (o and o["r"]))
    if ck.viol:
        return
    exe, bad = compile_lexers([o["v"]["src"] for o in obs], [l["names"] for l in lxs])
    for i in sorted(bad):
        ck.violation("render", "TR_Lexer", lxs[i], {"src": obs[i]["v"]["src"]}, "the generated lexer does not compile: " + bad[i])
    if bad:
        return
    per = 25 if not ck.thorough else 90
    cases = []
    for i, l in enumerate(lxs):
        alph = sorted({c for p in l["pats"] for _ in range(6) for c in gr.sample(p, rng)})[:200]
        short = [rng.choice(alph) for _ in range(3)] + [10]
        ts = [[]] + [list(t) for k in (1, 2) for t in itertools.product(short, repeat=k)] + [gr.text(rng, l, rng.randint(1, 14)) for _ in range(per)]
        ts += [[c for _ in range(40) for c in gr.sample(rng.choice(l["pats"]), rng) + [10]]]
        if i == len(lxs) - 1:  # beyond 16-bit offsets
            ts += [[ch] * 66000 + gr.text(rng, l, 5) for ch in (10, 32)]
        for t in ts:
            cases.append({"who": "gen", "lexer": i, "input": t, "pats": l["pats"], "names": l["names"], "skip": l["skip"]})
    slim = [{"lexer": c["lexer"], "input": c["input"]} for c in cases]
    o2 = replay(exe, ck.work, "gen", slim)
    for i in range(0, len(cases), 4000):
        ck.conform("gen", "TR_Lexer", cases[i:i + 4000], env={"TR_WANT": "full"}, obs=o2[i:i + 4000])
    ck.notes["generated_lexers_compiled"] = len(lxs)
    # lexical rules whose generated source is known not to compile, each looked at on its own
    listed = {f["id"]: f for f in load_findings() if f["property"] == "C11"}
    ids = sorted(BAD)
    ws = {"k": "L", "n": "WHITE_SPACE", "alts": [], "re": "/[ \\r\\n\\t\\f]+/"}
    lb = [{"rules": [{"k": "L", "n": a, "alts": [], "re": b} for a, b in BAD[x]] + [ws], "via": "lr"} for x in ids]
    ob = rendered(ck, lb)
    for x, l, o in zip(ids, lb, ob):  # one at a time: an error in one file can hide another's
        _, b = compile_lexers([o["v"]["src"]], [[BAD[x][0][0], "WHITE_SPACE"]])
        if b and x in listed:
            ck.known.append(listed[x]["what"])
        elif b:
            ck.violation("render", "TR_Lexer", l, {"src": o["v"]["src"]}, "the generated lexer does not compile: " + b[0])
    ck.assumptions.append("generated lexers are compiled with the installed stable rustc against /repo's crate; patterns are drawn from the syntax-tree fragment of spec/Lexer.tla")


CHECKS["C11"] = C11
