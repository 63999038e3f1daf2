"""Seeded generators of templates and wildcard libraries."""
from __future__ import annotations

import random

SYNTAX = {"vs": "{", "ve": "}", "ww": "__", "as": "${", "ae": "}", "ps": "%{", "pe": "}"}
WORDS = ["a", "b", "c", "red", "x", "yz", "q1", "7"]
VARS = ["u", "v", "w-1", "_z"]
ODD = ["x=1", "50%", "$5", "@k", "~t", "!n", "a:b", "1-2", "(q:1.1)", "[z]", "<l:m:1>", "é", "日本", "_",
       "don't", "/", "k.", "A", "a,b", "%", "=", "?", "+", "3.5", "-", "\"q\"", "&", "x;y", "*", "^"]
BLANKS = ["\u00a0", "\u3000", "\x0b", "\x0c", "\r", "\u2003", "\x85", "\u2028", "\u200b", " \u00a0 "]
SEPS = [",", " and ", ", ", "|", "; ", "-", " ", "::", "xx"]


class Profile:
    """Relative frequencies of the constructs a template is made of."""

    def __init__(self, **kw):
        self.lit = 6
        self.variant = 4
        self.wildcard = 2
        self.get = 0
        self.set = 0
        self.wrap = 0
        self.bounds = 0.35     # probability that a variant has a bound
        self.zero = 0.1        # ... whose lower end is 0
        self.weights = 0.15    # probability of a weight on an option
        self.symbols = 0.0     # probability of a sampling symbol
        self.symbol_set = "~!@"
        self.params = 0.0      # probability of wildcard parameters
        self.computed = 0.0    # probability of a computed wildcard name
        self.unknown = 0.08    # probability of an unknown wildcard
        self.comments = 0.0
        self.spaces = 0.1
        self.blanks = 0.0      # probability of unusual whitespace where there may be some
        self.depth = 2
        self.tokens = 4
        self.opts = 4
        self.undefined = 0.0
        self.immediate = 0.3
        self.dups = 0.1        # probability of a repeated word among options
        self.ellipsis = 0.0
        self.odd = 0.04        # probability of an unusual word
        self.many = 0.06       # probability of a variant with many options
        self.__dict__.update(kw)


class TemplateGen:
    def __init__(self, rng: random.Random, profile: Profile, *, names=(), k=SYNTAX):
        self.r, self.p, self.k, self.names = rng, profile, k, list(names) or ["c"]
        self.defined: list[str] = []

    def chance(self, p):
        return self.r.random() < p

    def sym(self):
        return self.r.choice(self.p.symbol_set) if self.chance(self.p.symbols) else ""

    def word(self):
        w = self.r.choice(ODD if self.chance(self.p.odd) else WORDS)
        if self.chance(self.p.ellipsis):
            w += self.r.choice(["...", "....", "…", "..", ". . .", "⋯⋮", "...…", "᠁", "⋰", "⋱", "︙"])
        return w

    def ws(self):
        if self.chance(self.p.blanks):
            return self.r.choice(BLANKS) * self.r.choice([1, 1, 2])
        return self.r.choice([" ", "  ", "\n"]) if self.chance(self.p.spaces) else ""

    def comment(self):
        if self.chance(self.p.comments):
            return self.r.choice(["# note\n", " # {a|b} __c__\n", "#\n", "#x $$ }\n"])
        return ""

    def lit(self, inner):
        n = self.r.randint(1, 2)
        s = " ".join(self.word() for _ in range(n))
        if self.chance(0.3):
            s = " " + s
        if self.chance(0.3):
            s += self.r.choice([" ", ", ", "  ", ".", "; "])
        return self.ws() + s

    def variant(self, depth):
        r, p, k = self.r, self.p, self.k
        n = r.choice([1, 2, 2, 2, 3, 3, p.opts])
        if self.chance(p.many):
            n = r.randint(5, 9)
        pool = r.sample(WORDS, min(len(WORDS), n + 1))
        if self.chance(p.odd * 2):
            pool[0] = r.choice(ODD)
        opts = []
        for i in range(n):
            if depth > 0 and self.chance(0.35):
                o = self.tokens(depth - 1, r.randint(1, 2), inner=True)
            elif self.chance(0.05):
                o = ""
            else:
                o = r.choice(WORDS) if self.chance(p.dups) else pool[i % len(pool)]
                if self.chance(p.ellipsis):
                    o += "..."
            w = ""
            if self.chance(p.weights):
                w = r.choice(["2::", "0.5::", "1.5::", "3::", "0::", "10::", ".25::", "1::", "0.04::"])
            opts.append(self.ws() + w + o + self.ws())
        b = ""
        if self.chance(p.bounds):
            lo = 0 if self.chance(p.zero) else r.randint(1, max(1, n if n < 5 else 2))
            hi = r.randint(lo, n + 1 if n < 5 else lo + 1)
            b = r.choice([f"{lo}", f"{lo}-{hi}", f"{hi}-{lo}", f"-{hi}", f"{lo}-" if n < 5 else f"{lo}", f"{min(n, 2)}"] + ([f"{n + 2}"] if n < 5 else [])) + "$$"
            if self.chance(0.5):
                b += r.choice(SEPS) + "$$"
            elif opts and "$$" in opts[0]:
                b += "," + "$$"
        return k["vs"] + self.ws() + self.sym() + b + (self.comment() + "|").join(opts) + self.comment() + k["ve"]

    def wildcard(self, depth):
        r, p, k = self.r, self.p, self.k
        if self.chance(p.unknown):
            name = r.choice(["nope", "no/pe", "zz*"])
        else:
            name = r.choice(self.names)
        if self.chance(p.computed):
            kind = r.randint(0, 5)
            if kind == 5:  # chosen in the default of a variable
                name = k["as"] + r.choice(VARS) + ":" + k["vs"] + self.sym() + "|".join(r.sample(self.names, min(2, len(self.names)))) + k["ve"] + k["ae"]
            elif kind == 4:  # known or not
                name = k["vs"] + self.sym() + "|".join(r.sample([name, "nope", "no/pe"], 2)) + k["ve"]
            elif kind == 0:
                name = k["as"] + r.choice(VARS) + ":" + name + k["ae"]
            elif kind == 1:
                name = k["vs"] + "|".join(r.sample(self.names, min(2, len(self.names)))) + k["ve"]
            elif kind == 2:
                name = k["as"] + r.choice(VARS + [name.replace("/", "_")]) + k["ae"]
            else:
                name = k["vs"] + self.sym() + name + k["ve"]
        spec = ""
        if self.chance(p.params):
            pairs = []
            for v in r.sample(VARS, r.choice([1, 1, 2, 2, 3, 4])):
                val = r.choice([r.choice(WORDS), "{a|b}", "x y", "{1|2|3}", "${" + r.choice(VARS) + ":dd}", "{@p|q}"]) if k is SYNTAX else r.choice(
                    [r.choice(WORDS), k["vs"] + "a|b" + k["ve"], k["as"] + r.choice(VARS) + ":dd" + k["ae"], "{a|b}"])
                pairs.append(f"{v}={val}")
            spec = r.choice(["", " "]) + "(" + r.choice([",", ", "]).join(pairs) + ")"
        return k["ww"] + self.sym() + name + spec + k["ww"]

    def get(self, depth):
        r, k = self.r, self.k
        n = r.choice(self.defined) if self.defined and not self.chance(0.15) else r.choice(VARS)
        d = ""
        if n not in self.defined and not self.chance(self.p.undefined) or self.chance(0.15):
            d = ":" + r.choice(["", "d", " dd ", self.variant(0)])
        return k["as"] + self.ws().replace("\n", " ") + n + d + k["ae"]

    def set(self, depth):
        r, k = self.r, self.k
        n = r.choice(VARS)
        op = r.choice(["=", "=", "?="]) + ("!" if self.chance(self.p.immediate) else "")
        v = "" if self.chance(0.1) else self.tokens(max(0, depth - 1), r.randint(1, 2), inner=True)
        if n not in self.defined:
            self.defined.append(n)
        return k["as"] + n + op + v + k["ae"]

    def wrap(self, depth):
        r, k = self.r, self.k
        w = self.tokens(max(0, depth - 1), r.randint(1, 2), inner=True)
        if not self.chance(0.2):
            w += r.choice(["...", "…", "....", r.choice("⋮⋯᠁⋰⋱︙"), "⋰⋱︙", "᠁…"]) + r.choice(["", " z", "... y"])
        i = self.tokens(max(0, depth - 1), r.randint(1, 2), inner=True)
        if self.chance(0.12):  # nothing around, or nothing inside
            w, i = r.choice([("", i), (w, ""), ("...", i), ("", "")])
        return k["ps"] + w + "$$" + i + k["pe"]

    def tokens(self, depth, n, inner=False):
        p, out = self.p, []
        kinds = [("lit", p.lit), ("variant", p.variant), ("wildcard", p.wildcard), ("get", p.get), ("wrap", p.wrap)]
        if not inner:
            kinds.append(("set", p.set))
        last_lit = False
        for _ in range(n):
            kind = self.r.choices([x for x, _ in kinds], [w for _, w in kinds])[0]
            if kind in ("variant", "wrap") and depth <= 0 and inner and self.chance(0.6):
                kind = "lit"
            if kind == "lit":
                s = self.lit(inner)
            else:
                s = getattr(self, kind)(depth)
            if self.comment() and not inner:
                s += self.comment()
            out.append(s)
        return "".join(out)

    def template(self):
        self.defined = []
        return self.tokens(self.p.depth, self.r.randint(1, self.p.tokens))


def library(rng: random.Random, *, size=3, values=3, nested=0.2, variables=0.0, weighted=0.0, symbols=0.0,
            k=SYNTAX, immediate=0.0):
    """A library as a list of {n, items:[{s,w}]} (weights in thousandths)."""
    names = rng.sample(["c", "d", "e/f", "e/g", "h", "a-b"], size)
    lib = []
    for i, n in enumerate(names):
        items = []
        for j in range(rng.randint(1, values)):
            x = rng.random()
            if x < nested:
                later = names[i + 1:]
                s = rng.choice([
                    k["vs"] + (rng.choice("~@!") if rng.random() < symbols else "") + "m|n" + k["ve"] + " k",
                    "t " + k["vs"] + "2$$i|j" + k["ve"],
                    (k["ww"] + rng.choice(later) + k["ww"] + " s") if later else "plain",
                ])
            elif x < nested + variables:
                v = rng.choice(VARS)
                s = rng.choice([
                    "k" + k["as"] + v + ":z" + k["ae"],
                    k["as"] + v + ":" + "zz" + k["ae"] + "t",
                    k["as"] + v + "=loc" + k["ae"] + "L" + k["as"] + v + k["ae"],
                    k["as"] + v + "?=lo2" + k["ae"] + "P" + k["as"] + v + k["ae"],
                ])
            else:
                s = rng.choice(["one", "two", "three", "B", "a", "zed", "x y", "red"]) + rng.choice(["", "", str(j)])
            w = 1000
            if rng.random() < weighted:
                w = rng.choice([2000, 3000, 1500, 500, 1000, 0])
            items.append({"s": s, "w": w})
        lib.append({"n": n, "items": items})
    return lib
