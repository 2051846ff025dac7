"""C16: loading trees from JSON. spec/JsonText, SerdeAst, MC_Serde, TR_Serde."""
import copy, json
from vlib import flat

MC = "CONSTANT Big = %s\nSPECIFICATION MCSpec\nINVARIANTS RoundTrip SucceedsIff FailedIsError\nPROPERTY Answers\nCHECK_DEADLOCK FALSE\n"
cps = lambda s: [ord(ch) for ch in s]


def project(c, o):
    o = copy.deepcopy(o)
    if o["r"] == "ok":
        for k in ("str", "rd", "rf"):
            t = o["v"][k]["tree"]
            o["v"][k]["tree"] = [dict(x, **{f: cps(x[f]) for f in ("ix", "nm", "tx", "ty") if f in x}) for x in flat(t[0])] if t else []
    return {"case": {"bytes": c["bytes"]}, "obs": o}


NUMS = ["0", "1", "7", "12", "4294967296", "18446744073709551615"]
BADN = ["18446744073709551616", "-1", "-0", "1.0", "1e2", "0.5", "\"1\"", "null", "true", "[]", "{}", "99999999999999999999", "1E0", "0e0"]
STRS = ["a", "", "expr", "é", "田", "\U0001f600", "\"", "\\", "/", "\n", "\t", "\u0000", "\u2028", "a b", "</script>", "children", "\x7f", "<no text>"]
BADS = ["5", "null", "true", "[]", "{}", "[\"a\"]"]


def st(rng, s):
    out = '"'
    for ch in s:
        o = ord(ch)
        x = rng.random()
        if ch in '"\\':
            out += "\\" + ch
        elif o < 32:
            out += {"\n": "\\n", "\t": "\\t"}.get(ch) if ch in "\n\t" and x < .5 else "\\u%04x" % o
        elif x < .1 and o < 0x10000:
            out += ("\\u%04X" if x < .05 else "\\u%04x") % o
        elif x < .2 and o >= 0x10000:
            out += "\\u%04x\\u%04x" % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
        elif x < .15 and ch == "/":
            out += "\\/"
        else:
            out += ch
    return out + '"'


def ws(rng):
    return rng.choice(["", "", "", " ", "\n", "\t", "\r\n", "  "])


def obj(rng, fields):
    if rng.random() < .3:
        rng.shuffle(fields)
    return "{" + ws(rng) + ("," + ws(rng)).join(st(rng, k) + ws(rng) + ":" + ws(rng) + v for k, v in fields) + ws(rng) + "}"


def leaf(rng, bad):
    f = [("token_type", rng.choice(NUMS)), ("token_name", st(rng, rng.choice(STRS)))]
    if rng.random() < .75:
        f.append(("text", st(rng, rng.choice(STRS))))
    if rng.random() < .1:
        f.append(("children", "null"))
    elif rng.random() < bad:
        f.append(("children", rng.choice(["5", "false", "{}", "\"\"", "\"a\"", "0", "{\"a\":[]}"])))
    if rng.random() < .1:
        f.append((rng.choice(["rule_index", "x", "", "rule_name", "Children"]), rng.choice(NUMS + BADN)))
    if rng.random() < .06:
        k = rng.choice(["token_type", "token_name", "text", "children"])
        f.append((k, {"token_type": rng.choice(NUMS + BADN[:3]), "token_name": st(rng, rng.choice(STRS)), "text": rng.choice([st(rng, rng.choice(STRS)), "null", "5"]), "children": rng.choice(["[]", "null"])}[k]))
    if rng.random() < bad:
        i = rng.randrange(len(f))
        x = rng.random()
        if x < .4:
            del f[i]
        elif x < .8:
            f[i] = (f[i][0], rng.choice(BADN if f[i][0] == "token_type" else BADS))
        else:
            return rng.choice(["null", "[]", "5", "\"x\"", "true", "{}", "[{}]"])
    return obj(rng, f)


def rule(rng, d, bad, n=None):
    n = rng.choice([0, 1, 2, 3]) if n is None else n
    ch = [rule(rng, d - 1, bad) if d > 0 and rng.random() < .5 else leaf(rng, bad) for _ in range(n)]
    f = [("rule_index", rng.choice(NUMS)), ("rule_name", st(rng, rng.choice(STRS))), ("children", "[" + ws(rng) + ("," + ws(rng)).join(ch) + ws(rng) + "]")]
    if rng.random() < .15:
        f.append((rng.choice(["token_type", "text", "x", "token_name"]), rng.choice(NUMS + BADN + BADS)))
    if rng.random() < .06:  # a member written twice
        k = rng.choice(["rule_index", "rule_name", "children"])
        f.append((k, {"rule_index": rng.choice(NUMS + BADN[:3]), "rule_name": st(rng, rng.choice(STRS)), "children": rng.choice(["[]", "null", "[{}]", "[{\"token_type\":3,\"token_name\":\"q\"}]"])}[k]))
    if rng.random() < bad:
        i = rng.randrange(3)
        x = rng.random()
        if x < .4:
            del f[i]
        else:
            f[i] = (f[i][0], rng.choice(BADN if i == 0 else BADS) if i < 2 else rng.choice(["null", "{}", "\"\"", "0", "true"]))
    return obj(rng, f)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2])):
        x = rng.random()
        i = rng.randrange(len(b)) if b else 0
        if x < .3 and b:
            del b[i]
        elif x < .6:
            b[i:i] = rng.choice([b",", b"]", b"}", b"\"", b"\\", b" ", b"0", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\x00", b"\n", b"\\ud800", b"\\u12", b"[", b"{", b"//", b"'", b"\xe2\x82", b"\x0b"])
        elif x < .8 and b:
            b[i] = rng.randrange(256)
        else:
            b = b[:i]
    return bytes(b)


def deep(n):
    s = '{"rule_index":1,"rule_name":"r","children":[]}'
    for _ in range(n):
        s = '{"rule_index":1,"rule_name":"r","children":[' + s + "]}"
    return s


def leafy(n):
    return '{"rule_index":0,"rule_name":"%s","children":[{"token_type":2,"token_name":"x","text":"%s"}]}' % ("n" * 300, "\\u00e9ab" * (n // 8))


def shipped(rng, n, size):
    """Sub-trees of the shipped grammar description, as documents."""
    try:
        root = json.load(open("/repo/src/tool/syntaxis/syntaxis2.json"))
    except (OSError, ValueError):
        return []
    subs, todo = [], [root]
    while todo:
        x = todo.pop()
        if isinstance(x, dict) and isinstance(x.get("children"), list):
            s = json.dumps(x, indent=rng.choice([None, 1]), ensure_ascii=False)
            if len(s) <= size:
                subs.append(s.encode())
            todo.extend(x["children"])
    rng.shuffle(subs)
    return subs[:n]


def C16(ck):
    out = ck.work.path("mc")
    ck.model("MC_Serde", MC % ("TRUE" if ck.thorough else "FALSE"), {"MC_OUT": out})
    docs = [bytes(json.loads(l)) for l in open(out)]
    if not ck.thorough:
        docs = docs[::2]
    ck.notes["exhaustive_small_documents"] = len(docs)
    rng = ck.rng()
    n = 700 if not ck.thorough else 9000
    for i in range(n):
        x = i % 5
        s = rule(rng, rng.randint(0, 3), [0, .04, .15, 0, .3][x])
        b = (ws(rng) + s + ws(rng)).encode()
        if x == 3:
            b = mutate(rng, b)
        docs.append(b)
    docs += [x.encode() for x in ["", " ", "null", "[]", "{}", "5", "\"a\"", "true", "nul", "{", "[1,]", "{\"a\":1,}", "{} {}", "[" * 200, "{\"children\":[]}", "\ufeff{}", "[[]]",
                                  "{\"rule_index\":0,\"rule_name\":\"\",\"children\":[]}", "{\"rule_index\":0,\"rule_name\":\"\",\"children\":[null]}", "01", "1.", "--1", "tru", "[1 2]", "{\"a\" 1}", "{1:2}"]]
    good = ["{\"rule_index\":3,\"rule_name\":\"r\",\"children\":[{\"token_type\":1,\"token_name\":\"t\"}]}", rule(rng, 1, 0)]
    for junk in ["\ufeff", "\u00a0", "\x0b", "\x0c", "\0", "\u2028", "\u3000", "\x85", ",", ";", "x", "//", "#", "/**/", "{}", "null", "]", "\r", " \t\r\n ", "\x7f", "\x1e"]:
        docs += [(a + g + b).encode() for g in good for a, b in ((junk, ""), ("", junk), ("\n" + junk, "\n"), (" ", " " + junk))]
    # ill-formed and well-formed UTF-8 inside the strings of a document
    for junk in [b"\xff", b"\x80", b"\xc3", b"\xc0\x80", b"\xc1\xbf", b"\xe2\x82", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80",
                 b"\xf4\x8f\xbf\xbf", b"\xef\xbf\xbd", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\x7f", b"\x1f", b"\n", b"\\ud800", b"\\udc00", b"\\ud83d\\ude00", b"\\ud83dx", b"\\x41", b"\\'", b"\\/"]:
        v = rng.randrange(4)
        for i in {v, (v + rng.randint(1, 3)) % 4} if not ck.thorough else range(4):
            q = [b"", b"", b"", b""]
            q[i] = junk
            docs.append(b'{"rule_index":3,"rule_name":"r%b","children":[{"token_type":1,"token_name":"%bt","text":"a%bb"%b}]}' % (q[0], q[1], q[2], b',"x":"' + junk + b'"' if i == 3 else b""))
    docs += [deep(k).encode() for k in (10, 40, 61, 62, 63, 64, 70)]
    docs += [rule(rng, 1, 0, 25).encode(), rule(rng, 0, 0, 66).encode(), leafy(900).encode()]
    docs += shipped(rng, 12 if not ck.thorough else 60, 1500 if not ck.thorough else 4000)
    cases = [{"bytes": list(b), "step": rng.choice([1, 2, 3, 7, 64, 4096]), "fail": rng.randint(0, len(b)) if rng.random() < .5 else -1} for b in docs]
    ck.conform("serde", "TR_Serde", cases, project=project)
    ck.assumptions.append("documents with numbers beyond the range of a double and documents nested 126 or more levels deep are only required not to panic")


C16.project = {"serde": project}
CHECKS = {"C16": C16}
