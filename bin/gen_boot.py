"""Random texts of the grammar language (inputs only; spec/Boot.tla reads them)."""
RN = ["expr", "stmt", "list_1", "aB", "x9", "epsilonx", "epsilo", "fragment", "fragmentx", "rule", "aaaa", "if_", "zZ"]
TN = ["ID", "NUM", "Tok", "A_", "WHITE_SPACE", "X9", "PLUS", "OR", "SEMI", "Epsilon"]
SL = ["'a'", "'+'", "''", "'\\n'", "'\\''", "'\\\\'", "'a b'", "'é'", "'|'", "';'", "'/'", "'\\u{0x1f}'", "'//'", "':='", "'(x)*'", "'9'", "'\"'", "'\\u{41}'", "'\\u{0041}'", "'\\u{00000041}x'", "'\\u{0x00000000041}\\u{a}'", "'\\u{10ffff}\\u{123456789abcdef}'"]
RL = ["/a/", "/[a-z]+/", "/\\//", "/a|b/", "/'[^']*'/", "/;/", "/田+/", "/\"####/", "/ /", "/x\ny/", "/(\\/|[^\\/])+/", "/:=/", "/\\d+(\\.\\d+)?/"]
COL = [":", "::=", ":=", "->", "=>", "="]
WS = [" ", "\n", "\t", "\r\n", "  ", "\n\n\t", "\x0c"]


class G:
    def __init__(self, rng, big=False):
        self.rng, self.big = rng, big

    # mostly familiar words, now and then any word of the kind
    def name(self, first):
        r = self.rng
        return r.choice(first) + "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(r.choice([0, 1, 2, 5, 9, 17, 40])))

    def rn(self):
        return self.rng.choice(RN) if self.rng.random() < .8 else self.name("abcdefghijklmnopqrstuvwxyz")

    def tn(self):
        return self.rng.choice(TN) if self.rng.random() < .8 else self.name("ABCDEFGHIJKLMNOPQRSTUVWXYZ")

    def sl(self):
        r = self.rng
        if r.random() < .7:
            return r.choice(SL)
        return "'" + "".join(r.choice(["a", "Z", "7", " ", "+", "/", "|", ";", "\"", "é", "田", "\\'", "\\\\", "\\n", "\\r", "\\t", "\\f", "\\v", "\\a", "\\d",
                                      "\\u{%s%x}" % (r.choice(["", "0", "0x", "000", "0x00000"]), r.choice([0, 9, 0xa0, 0x1f600, 0xffffffff]))]) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))) + "'"

    def rl(self):
        r = self.rng
        if r.random() < .7:
            return r.choice(RL)
        return "/" + "".join(r.choice(["a", "Z", "7", " ", "+", "\\/", "|", ";", "\"", "'", "é", "田", "[", "]", "*", "\\", "\n", "#", "(", ")"]) for _ in range(r.choice([1, 2, 3, 6, 12, 30]))) + "/"

    def element(self, d, rule=None, suffix=None):
        r = self.rng
        x = r.random()
        if x < .3:
            e = [self.tn()]
        elif x < .6:
            e = [self.rn()]
        elif x < .75:
            e = [self.sl()]
        elif d > 0:
            e = ["("] + self.block(d - 1) + [")"]
        else:
            e = [self.tn()]
        if r.random() < .4:
            e += [r.choice("*+?")]
            if r.random() < .3:
                e += ["?"]
        return e

    def suffix(self):
        r = self.rng
        return [r.choice("*+?")] + (["?"] if r.random() < .5 else [])

    def alternative(self, d):
        r = self.rng
        if r.random() < .12:
            return ["ε"]
        out = []
        for _ in range(r.randint(1, 4 if not self.big else 8)):
            out += self.element(d)
        return out

    def block(self, d):
        out = self.alternative(d)
        for _ in range(self.rng.choice([0, 0, 1, 2]) if not self.big else self.rng.randint(0, 6)):
            out += ["|"] + self.alternative(d)
        return out

    def parser_rule(self):
        return [self.rn(), self.rng.choice(COL)] + self.block(2) + [";"]

    def lexer_rule(self):
        return [self.tn(), self.rng.choice(COL), self.rl(), ";"]

    def rule_list(self, n):
        return [t for _ in range(n) for t in (self.parser_rule() if self.rng.random() < .6 else self.lexer_rule())]

    def layout(self, toks, sparse=None):
        """joins tokens with random white space, always between two words"""
        r = self.rng
        sparse = r.random() if sparse is None else sparse
        out, prev = "", ""
        if r.random() < .3:
            out = r.choice(WS)
        for t in toks:
            if prev and (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] == "_") and prev != "ε" or r.random() > sparse:
                out += "".join(r.choice(WS) for _ in range(r.choice([1, 1, 2])))
            out += t
            prev = t
        if r.random() < .3:
            out += r.choice(WS)
        return out


def piece(rng, entry):
    g = G(rng)
    if entry == 0:
        return g.layout(g.rule_list(rng.randint(0, 5)))
    t = {1: lambda: g.parser_rule() + rng.choice([[], g.lexer_rule()]), 2: lambda: g.block(2) + [rng.choice([";", ")"])], 3: lambda: g.alternative(2) + [rng.choice([";", "|", ")"])],
         4: lambda: ["ε", rng.choice([";", "|"])], 5: lambda: g.element(2) + [rng.choice([";", "|", ")", "xx", "'a'"])], 6: lambda: g.suffix() + [rng.choice([";", "ID", "("])],
         7: lambda: g.lexer_rule() + rng.choice([[], g.parser_rule()]), 8: lambda: [rng.choice(RL), ";"]}[entry]()
    return g.layout(t)


def broken(rng, s):
    """a text one edit away"""
    if not s:
        return ";"
    i = rng.randrange(len(s))
    x = rng.random()
    if x < .4:
        return s[:i] + s[i + 1:]
    if x < .7:
        return s[:i] + rng.choice(";:|()*ε'/aA ") + s[i:]
    return s[:i]
