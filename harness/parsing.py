"""The parser against the grammar (C14): strings parsed by the real parser,
projected to abstract syntax, are judged by ParseTrace.tla."""
from __future__ import annotations

import json

import gen
import observe
import pool
import sampling

FRAGMENTS = [
    "a", "b", "x y", " ", "{", "}", "|", "$$", "2$$", "1-2$$", " and $$", "${", "${v}", "${v=", "${v:", "=", "!", "~", "@", "__",
    "__c__", "%{", "...", ",", "0.5::", "3::", "::", "#", "# c\n", "\n", "(", ")", "(x=1)", "(x=1, y={a|b})", "-", "1", "2", "//",
    "/*k*/", ".", "\"", "?=", "é", "{a|b}", "{@a|b}", "__~c__", "$", "%", "_", "{2$$ and $$a|b|c}", "__a${v}b__", "${v:d}",
    "{!2-$$;$$", "__{a|b}/c__", "%{x...$$", "${v?=!", "-3$$", "10::", ".5::", ":", "*", "[", "/", "__c(v=1)__", "…", "<", "\\", "'",
    "\u00a0", "\x0c", "\r", "\u2028",
]
PLAIN = "abcxyzABC0123456789 ,.;:'\"!?&()[]<>=+-*@^~`\\éß日本…–\n"


def mutate(R, s):
    for _ in range(R.randint(1, 3)):
        i = R.randrange(len(s) + 1)
        x = R.random()
        if x < 0.35 and s:
            s = s[:i] + s[i + R.randint(1, 2):]
        elif x < 0.8:
            s = s[:i] + R.choice(FRAGMENTS) + s[i:]
        else:
            j = R.randrange(len(s) + 1)
            i, j = min(i, j), max(i, j)
            s = s[:i] + s[i:j] * R.choice([0, 2]) + s[j:]
    return s


def check(run, cases, part):
    obs = pool.run_cases(observe.parse_ast, cases, timeout=20)
    lines = [{"id": i, **c, "ast": o.get("ast", {"t": o.get("fatal", "?")})} for i, (c, o) in enumerate(zip(cases, obs))]
    run.clock(f"{part}: parsed")
    verdicts = run.judge("ParseTrace", lines, part=part)
    run.clock(f"{part}: judged")
    run.count(part, accepted=sum(x["ast"]["t"] != "bad" for x in lines))
    bad = 0
    for i, v in sorted(verdicts.items()):
        if v in ("skip", "unjudged"):
            continue
        if lines[i]["ast"]["t"] == "!!Timeout":  # a busy machine is not a violation
            o = pool.run_cases(observe.parse_ast, [cases[i]], timeout=120)[0]
            lines[i]["ast"] = o.get("ast", {"t": o.get("fatal", "?")})
            v = run.judge("ParseTrace", [lines[i]], part="repeated").get(i, "ok")
            if v == "ok":
                continue
        bad += 1
        if bad <= 20:
            run.violation(v, {"kind": "parse", **cases[i]}, lines[i]["ast"])
    for x in lines[:: max(1, len(lines) // 2)]:
        run.sample({"string": x["s"], "tree": x["ast"]})


def c14(run):
    R = run.rng
    d = gen.SYNTAX
    out = run.model("MCTokens", cfg=run.scale("MCTokens.cfg", "MCTokensDeep.cfg"))
    seen = sorted({x["s"] for x in run.printed(out)})
    check(run, [{"s": s, "k": d} for s in seen], "every short string of a family")
    cases = []
    full = gen.Profile(get=2, set=2, wrap=1, params=0.3, computed=0.3, symbols=0.3, comments=0.15, weights=0.3, spaces=0.3, odd=0.3, depth=3)
    blank = gen.Profile(get=2, set=2, wrap=1, params=0.3, symbols=0.3, comments=0.15, weights=0.3, blanks=0.3, depth=2)
    plain = gen.Profile(get=1, set=1, wrap=1, params=0.2, symbols=0.2, depth=2)
    names = ["c", "a/b", "d*", "x-y", "e f"]
    for _ in range(run.scale(4000, 80000)):
        k = R.choice(sampling.ALT_SYNTAX) if R.random() < 0.2 else d
        s = gen.TemplateGen(R, R.choice([full, full, plain, plain, blank]), names=names, k=k).template()
        cases.append({"s": s, "k": k})
        if R.random() < 0.6:
            cases.append({"s": mutate(R, s), "k": k})
    for _ in range(run.scale(4000, 80000)):
        s = "".join(R.choice(FRAGMENTS) for _ in range(R.randint(1, 10)))
        cases.append({"s": s, "k": R.choice(sampling.ALT_SYNTAX) if R.random() < 0.15 else d})
    for _ in range(run.scale(400, 8000)):
        cases.append({"s": "".join(R.choice(PLAIN) for _ in range(R.randint(0, 25))), "k": d})
    check(run, cases, "templates")


# ------------------------------ C26 ----------------------------------------
def build(c, memo):
    """The real command of a tree; equal subtrees are one object if memo is a
    dictionary."""
    from dynamicprompts.commands import (
        LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand, WrapCommand,
    )
    from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand

    if memo is not None and (key := json.dumps(c, sort_keys=True)) in memo:
        return memo[key]

    def mark(c):
        return observe.method(c["m"]) if c.get("m") else None

    t, of = c["t"], c.get("of", "")
    if t == "lit":
        res = LiteralCommand(c["s"], sampling_method=mark(c)) if c.get("m") else LiteralCommand(c["s"])
    elif t == "seq":
        xs = [build(x, memo) for x in c["xs"]]
        if of:  # the convenience constructor takes texts and commands
            res = SequenceCommand.from_literals([x["s"] if x["t"] == "lit" and not x.get("m") else y for x, y in zip(c["xs"], xs)],
                                                separator=c.get("sep", ""), sampling_method=mark(c))
        else:
            res = SequenceCommand(xs, separator=c.get("sep", ""), sampling_method=mark(c))
    elif t == "var":
        ws = [o["w"] / 1000 for o in c["opts"]]
        if of:
            res = VariantCommand.from_literals_and_weights([o["v"]["s"] for o in c["opts"]], None if of == "plain" else ws, min_bound=c["lo"],
                                                           max_bound=c["hi"], separator=c["sep"], sampling_method=mark(c))
        else:
            res = VariantCommand([VariantOption(build(o["v"], memo), w) for o, w in zip(c["opts"], ws)], c["lo"], c["hi"], c["sep"], mark(c))
    elif t == "wc":
        path = c["path"]["s"] if c["path"]["t"] == "lit" and not of else build(c["path"], memo)
        res = WildcardCommand(path, mark(c), {v["n"]: build(v["v"], memo) for v in c["vars"]})
    elif t == "get":
        res = VariableAccessCommand(c["n"], None if c["d"]["t"] == "none" else build(c["d"], memo))
    elif t == "set":
        res = VariableAssignmentCommand(c["n"], build(c["v"], memo), c["imm"], c["ow"])
    else:
        res = WrapCommand(build(c["w"], memo), build(c["i"], memo), sampling_method=mark(c))
    if memo is not None:
        memo[key] = res
    return res


def tree_one(g):
    import dataclasses

    ctx = observe.context({**g, "vars": []})
    memo = {} if g["shared"] else None
    if g["vars"]:
        ctx = dataclasses.replace(ctx, variables={v["n"]: build(v["c"], memo) for v in g["vars"]})
    cmd = build(g["c"], memo)
    before = repr(cmd)
    n = g["n"]
    for _ in range(1 + g.get("again", 0)):
        try:
            if g["via"] == "lazy" or n >= observe.FULL:
                out = observe.take(ctx.sample_prompts(cmd), n)
            else:
                out = observe.take(ctx.sample_prompts(cmd, n), n + 5)
        except Exception as e:
            out = [pool.err(e)]
    return {"out": out, "kept": repr(cmd) == before}


class TreeGen:
    """Random trees, including such as no template text denotes."""

    def __init__(self, R, names, marks=0.1):
        self.r, self.names, self.marks = R, names, marks

    def mark(self):
        return self.r.choice("RYC") if self.r.random() < self.marks else ""

    def lit(self):
        return {"t": "lit", "s": self.r.choice(["a", "b", "c", "a b", " x ", "", "...", "p...q", "é", "{a|b}", "__w__", "# no", "${v}", ",", "1"]),
                **({"m": self.r.choice("RYC")} if self.r.random() < self.marks / 3 else {})}

    def tree(self, d):
        R = self.r
        x = R.random()
        if d == 0 or x < 0.15:
            y = R.random()
            if y < 0.5:
                return self.lit()
            if y < 0.75:
                return {"t": "get", "n": R.choice(gen.VARS[:2]), "d": self.lit() if R.random() < 0.7 else {"t": "none"}}
            return self.wild(0)
        if x < 0.45:
            return self.seq(d)
        if x < 0.75:
            of = R.choice(["plain", "weights"]) if R.random() < 0.2 else ""
            k = R.choice([1, 2, 2, 3, 4])
            opts = [{"w": 1000 if of == "plain" else R.choice([1000, 1000, 1000, 500, 2000, 3000]), "v": {"t": "lit", "s": R.choice("abcd")} if of else self.tree(d - 1)}
                    for _ in range(k)]
            b = R.choice([[1, 1], [1, 1], [0, 1], [2, 1], [1, 2], [2, 2], [-1, 1], [1, -2], [0, 0], [3, 0], [9, 9], [5, 2]])
            return {"t": "var", "opts": opts, "lo": b[0], "hi": b[1], "sep": R.choice([",", "", " and ", "$$", "{", "|"]), "m": self.mark(), **({"of": of} if of else {})}
        if x < 0.85:
            return self.wild(d - 1)
        if x < 0.93:
            return {"t": "wrap", "w": self.tree(d - 1), "i": self.tree(d - 1), "m": self.mark()}
        return {"t": "get", "n": R.choice(gen.VARS[:2]), "d": self.tree(d - 1)}

    def wild(self, d):
        R = self.r
        path = {"t": "lit", "s": R.choice(self.names)}
        if d and R.random() < 0.3:
            path = self.tree(0)
        c = {"t": "wc", "path": path, "m": self.mark(), "vars": []}
        if R.random() < 0.2:
            c["vars"] = [{"n": v, "v": self.tree(d)} for v in R.sample(gen.VARS[:2], R.randint(1, 2))]
        # text is read as a template, so only plain names are given as text
        if path["t"] != "lit" or path["s"] not in self.names or R.random() < 0.3:
            c["of"] = "command"
        return c

    def seq(self, d):
        R = self.r
        xs = []
        for _ in range(R.choice([0, 1, 2, 2, 3, 3, 4])):
            y = R.random()
            if y < 0.15:
                xs.append({"t": "set", "n": R.choice(gen.VARS[:2]), "v": self.tree(d - 1), "imm": R.random() < 0.3, "ow": R.random() < 0.7})
            elif y < 0.3 and xs:
                xs.append(R.choice(xs))
            else:
                xs.append(self.tree(d - 1))
        return {"t": "seq", "xs": xs, "sep": R.choice(["", "", "", ", ", " ", "--"]), "m": self.mark(), **({"of": "literals"} if R.random() < 0.2 else {})}


def c26(run):
    R = run.rng
    trees = [x["c"] for x in run.printed(run.model("MCTrees", cfg=run.scale("MCTrees.cfg", "MCTreesDeep.cfg")))]
    base = {"k": gen.SYNTAX, "ws": False}
    lib = [{"n": "w", "items": [{"s": "m", "w": 1000}, {"s": "n", "w": 1000}]}]
    V = [{"n": "v", "c": {"t": "lit", "s": "V"}}]
    cases = [{**base, "lib": lib, "vars": V, "c": c, "m": m, "n": R.choice([3, 12]), "seed": 0, "via": R.choice(["ctx", "lazy"]), "shared": R.random() < 0.5,
              "again": R.choice([0, 0, 1, 2])}
             for c in trees for m in "RYC"]
    check_trees(run, cases, "small trees")
    cases = []
    for _ in range(run.scale(6000, 100000)):
        lib = gen.library(R, nested=0.2, variables=0.1, weighted=0.1)
        tg = TreeGen(R, [c["n"] for c in lib] + ["e/*", "*", "nope"], marks=R.choice([0, 0, 0.15]))
        m = R.choice("RYC")
        cases.append({**base, "lib": lib, "vars": [{"n": n, "c": tg.tree(1)} for n in gen.VARS[:2] if R.random() < 0.4], "c": tg.tree(R.choice([1, 2, 2, 3])), "m": m,
                      "ws": R.random() < 0.1, "n": R.choice([0, 1, 2, 3, 7, 20]), "seed": R.randrange(999), "via": R.choice(["ctx", "lazy"]), "shared": R.random() < 0.5,
                      "again": R.choice([0, 0, 1, 2])})
    check_trees(run, cases, "random trees")


def check_trees(run, cases, part):
    obs = pool.run_cases(tree_one, cases, timeout=5)
    lines = [{"id": i, **{f: c[f] for f in ("c", "m", "lib", "k", "ws", "n", "vars")}, "out": o.get("out", [o.get("fatal")]), "kept": o.get("kept", True)}
             for i, (c, o) in enumerate(zip(cases, obs))]
    for i, v in sorted(run.judge("TreeTrace", lines, part=part).items()):
        if v not in ("skip", "unjudged"):
            if lines[i]["out"][-1:] == ["!!Timeout"]:
                o = pool.run_cases(tree_one, [cases[i]], timeout=60, procs=1)[0]
                again = [{**lines[i], "id": 0, "out": o.get("out", [o.get("fatal")])}]
                if not any(x not in ("skip", "unjudged") for x in run.judge("TreeTrace", again, part="repeated").values()):
                    continue
            run.violation(v, {"kind": "tree", **cases[i]}, lines[i]["out"])
    run.sample({"tree": cases[-1]["c"], "mode": cases[-1]["m"], "prompts": lines[-1]["out"][:4]})
