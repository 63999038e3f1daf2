"""Checks whose observations are prompts sampled from templates (C01-C10, C15,
C16): recorded runs of the real code are validated against Semantics.tla."""
from __future__ import annotations

import gen
import observe
import pool

FIELDS = ("s", "n", "lib", "m", "k", "ws", "unk", "vars")


def flatten(groups, obs, start=0):
    """One trace line per run."""
    lines, where = [], []
    for gi, (g, o) in enumerate(zip(groups, obs)):
        outs = o.get("outs") if o else None
        for ri, r in enumerate(g["runs"]):
            out = outs[ri] if outs is not None else [o["fatal"]]
            lines.append({
                "id": start + len(lines), "s": r["s"], "n": r["n"], "lib": g["lib"], "m": g["m"], "k": g["k"],
                "ws": g.get("ws", False), "unk": g.get("unk", ""), "unkc": g.get("unkc", False), "vars": g.get("vars", []), "out": out,
            })
            where.append((gi, ri))
    return lines, where


RESOURCE = ("!!Timeout", "!!Killed", "!!MemoryError")


def again(run, groups, module, timeout):
    """Observe the last run of each group once more, with plenty of time: a
    busy machine is not a violation."""
    obs = pool.run_cases(observe.sample_group, groups, timeout=timeout, procs=4)
    lines, where = flatten(groups, obs)
    last = [x for x, (gi, ri) in zip(lines, where) if ri == len(groups[gi]["runs"]) - 1]
    verdicts = run.judge(module, last, part="repeated runs") if last else {}
    return [(x, verdicts.get(x["id"], "ok")) for x in last]


def check_groups(run, groups, *, part, timeout=5, module="SampleTrace"):
    for g in groups:
        g["timeout"] = timeout
    obs = pool.run_cases(observe.sample_group, groups, timeout=timeout)
    lines, where = flatten(groups, obs)
    run.clock(f"{part}: observed")
    verdicts = run.judge(module, lines, part=part)
    run.clock(f"{part}: judged")
    bad = {i: v for i, v in sorted(verdicts.items()) if v not in ("skip", "unjudged")}

    def upto(i):
        gi, ri = where[i]
        return {**groups[gi], "runs": groups[gi]["runs"][:ri + 1]}

    slow = [i for i in bad if lines[i]["out"][-1:] and lines[i]["out"][-1] in RESOURCE]
    for i in slow[4:]:  # enough of them are looked at again
        del bad[i]
    slow = slow[:4]
    for i, (x, v) in zip(slow, again(run, [{**upto(i), "timeout": 6 * timeout} for i in slow], module, 6 * timeout)):
        lines[i], bad[i] = x, v
        if v in ("skip", "unjudged", "ok"):
            del bad[i]
    for i, v in list(bad.items())[:20]:
        run.violation(v, {"kind": "sample", "group": upto(i), "module": module}, lines[i]["out"])
    for i in range(0, len(lines), max(1, len(lines) // 3)):
        if verdicts.get(i) is None:
            run.sample({"template": lines[i]["s"], "mode": lines[i]["m"], "prompts": lines[i]["out"][:4]})
    return lines, verdicts


# ---------------------------------------------------------------------------
ALT_SYNTAX = [
    {"vs": "<", "ve": ">", "ww": "~~", "as": "@<", "ae": ">", "ps": "^<", "pe": ">"},
    {"vs": "[[", "ve": "]]", "ww": "%%", "as": "$(", "ae": ")", "ps": "&[", "pe": "]"},
    {"vs": "{", "ve": "}", "ww": "++", "as": "${", "ae": "}", "ps": "%{", "pe": "}"},
    {"vs": "(", "ve": ")", "ww": "__", "as": "${", "ae": "}", "ps": "%{", "pe": "}"},
    {"vs": "{", "ve": "}", "ww": "__", "as": "=<", "ae": ">", "ps": "%{", "pe": "}"},
    {"vs": "{", "ve": "}", "ww": "*", "as": "${", "ae": "}", "ps": "<<", "pe": ">>"},
    {"vs": "«", "ve": "»", "ww": "¤", "as": "§", "ae": "¶", "ps": "¿", "pe": "?"},
]
# the same but for one token: nothing of one syntax may carry over to another
ALT_SYNTAX += [{**gen.SYNTAX, f: t} for f, t in (
    ("vs", "<"), ("ve", "]"), ("ww", "~"), ("as", "=["), ("ae", "]"), ("ps", "<<"), ("pe", ">"))]
VIAS = ["ctx", "ctx", "gen", "cmd", "lazy"]


def group(run, profile, modes, ns, *, libkw=None, k=gen.SYNTAX, ws=0.1, unk=0.1, ctxvars=0.0, names=(), runs=(1, 3)):
    R = run.rng
    m = R.choice(modes)
    lib = gen.library(R, k=k, **(libkw or {}))
    t = gen.TemplateGen(R, profile, names=[c["n"] for c in lib] + list(names), k=k)
    vars_ = []
    if R.random() < ctxvars:
        sub = gen.TemplateGen(R, gen.Profile(depth=1, tokens=2, wildcard=1), names=[c["n"] for c in lib], k=k)
        vars_ = [{"n": n, "s": sub.template() or "z"} for n in R.sample(gen.VARS, R.randint(1, 2))]
    g = {
        "lib": lib, "m": m, "k": k, "ws": R.random() < ws, "unk": "UNK" if R.random() < unk else "",
        "vars": vars_, "seed": R.randrange(10**6), "runs": [],
    }
    if g["unk"] and R.random() < 0.5:  # a parsed template instead of text
        g["unkc"], g["unk"] = True, R.choice(["UNK", "U" + k["vs"] + "p|q" + k["ve"], k["as"] + "u:dflt" + k["ae"]])
    for _ in range(R.randint(*runs)):
        g["runs"].append({"s": t.template(), "n": R.choice(ns[m]), "via": R.choice(VIAS)})
    return g


# ------------------------------- profiles -----------------------------------
P = gen.Profile
FULL = observe.FULL
NAMES = ("e/*", "*", "f", "**")
NC = [FULL, FULL, FULL, 1, 2, 3, 7, 20]
NR = [1, 1, 2, 3, 4]
NY = [1, 4, 7, 12, 25, 40]
NS = {"C": NC, "R": NR, "Y": NY}


def fuzz(run, spec, total, part):
    """spec: list of (weight, profile, kwargs for group)."""
    groups, runs = [], 0
    while runs < total:
        _, prof, kw = run.rng.choices(spec, [w for w, _, _ in spec])[0]
        kw = {"names": NAMES, "ns": NS, **kw}
        g = group(run, prof, kw.pop("modes"), kw.pop("ns"), **kw)
        groups.append(g)
        runs += len(g["runs"])
    return check_groups(run, groups, part=part)


# the library of MCTemplates.tla
MODEL_LIB = [
    {"n": "w", "items": [{"s": "m", "w": 1000}, {"s": "n", "w": 1000}]},
    {"n": "d/u", "items": [{"s": "k${v:z}", "w": 1000}, {"s": "t", "w": 1000}]},
    {"n": "d/h", "items": [{"s": "h", "w": 2000}, {"s": "i", "w": 1000}, {"s": "{j|o}", "w": 1000}]},
]


def modelled(run, families, runs):
    """Every small template of some families of MCTemplates.tla, run by the
    real code; runs(count) lists the (mode, limit) pairs for a template with
    so many combinations (None: not determined)."""
    R = run.rng
    for f in families:
        out = run.model("MCTemplates", env={"FAMILY": f, "DEPTH": run.scale("3", "4")}, part=f"model of {f} templates")
        groups = []
        for t in run.printed(out):
            for m, n, ws in runs(t["c"] if t["c"] >= 0 else None):
                if groups and groups[-1]["m"] == m and groups[-1]["ws"] == ws and len(groups[-1]["runs"]) < 5:
                    g = groups[-1]  # several runs of one context
                else:
                    g = {"lib": MODEL_LIB, "m": m, "k": gen.SYNTAX, "ws": ws, "seed": R.randrange(9999), "runs": []}
                    groups.append(g)
                g["runs"].append({"s": t["s"], "n": n, "via": R.choice(VIAS)})
        check_groups(run, groups, part=f"all small {f} templates")


def in_modes(modes, ny=12, nr=4, ws=(False,)):
    return lambda c: [(m, {"C": FULL, "Y": ny, "R": nr}[m], w) for m in modes for w in ws]


LIB = {"nested": 0.25}
LIBV = {"nested": 0.15, "variables": 0.35}
LIBW = {"nested": 0.15, "weighted": 0.5, "values": 4}


def c01(run):
    modelled(run, ["plain", "twins", "select", "wrap"], in_modes("C"))
    small = dict(tokens=3, depth=2, many=0.1)
    fuzz(run, [
        (4, P(**small), {"modes": "C", "libkw": LIB}),
        (2, P(tokens=2, depth=3, variant=8, bounds=0.2), {"modes": "C", "libkw": LIB}),
        (2, P(bounds=0.7, dups=0.3, **small), {"modes": "C", "libkw": LIB}),
        (2, P(get=4, set=3, params=0.2, undefined=0.05, **small), {"modes": "C", "libkw": LIBV, "ctxvars": 0.3}),
        (2, P(wrap=3, ellipsis=0.1, **small), {"modes": "C", "libkw": LIB}),
        (2, P(wildcard=6, computed=0.2, unknown=0.15, **small), {"modes": "C", "libkw": {"nested": 0.4, "size": 5, "values": 5}}),
        (1, P(wildcard=5, **small), {"modes": "C", "libkw": LIBW}),
    ], run.scale(6000, 150000), "combinatorial runs")
    check_groups(run, large_combinations(run.rng, run.scale(36, 1500)), part="hundreds of combinations", timeout=20)


def large_combinations(R, total):
    """Templates, wildcard values, options and variables that stand for
    hundreds of combinations each."""

    def options(tag, n):
        return "{" + "|".join(f"{tag}{j}" for j in range(n)) + "}"

    def big():
        kind = R.randint(0, 3)
        if kind == 0:
            return options("a", R.randint(3, 9)) + R.choice(["", " "]) + options("b", R.randint(5, 9)) + options("c", R.randint(4, 9))
        if kind == 1:
            return "{" + f"{R.choice(['2', '1-2', '2-2'])}$$" + R.choice(["", " & $$"]) + options("d", R.randint(15, 26))[1:]
        if kind == 2:
            return options("e", R.randint(100, 300))
        return options("f", R.randint(60, 150)) + R.choice(["-", " "]) + options("g", R.randint(2, 5))

    groups = []
    for _ in range(total):
        lib = [{"n": "w", "items": [{"s": x, "w": 1000} for x in R.choice([[big()], ["first", big()], [big(), "zz last"]])]},
               {"n": "many", "items": [{"s": f"v{j:03}", "w": 1000} for j in range(R.randint(100, 500))]}]
        inner = R.choice([big(), "__w__", "__w__", "__many__", "{__w__|k}", "{k|__w__}", "{1$$__many__}", "%{x...y$$__w__}", "%{__w__...$$k}", "${v=__w__}${v}",
                          "${v:__w__}", "{" + big() + "|z}"])
        s = R.choice(["", "p ", "{1|2}"]) + inner + R.choice(["", " q", "{1|2}"])
        groups.append({"lib": lib, "m": "C", "k": gen.SYNTAX, "seed": 0, "runs": [
            {"s": s, "n": R.choice([260, 400, 400, 700, FULL]), "via": R.choice(VIAS)}]})
    return groups


def huge_template(R, lib):
    """A template with astronomically many combinations and distinct parts."""
    parts = []

    def options(i, n):
        return "|".join(f"o{i}x{j}" for j in range(n))

    for i in range(R.randint(3, 9)):
        kind = R.random()
        if kind < 0.4:
            parts.append("{" + options(i, R.randint(4, 30)) + "}")
        elif kind < 0.65:
            n = R.randint(8, 40)
            lo = R.choice([0, 1, 2, 3, 4, 6, 8, n // 2])
            hi = R.choice([lo, R.randint(lo, n)])
            parts.append("{" + (f"{lo}" if lo == hi else f"{lo}-{hi}") + "$$" + R.choice(["", " & $$"]) + options(i, n) + "}")
        elif kind < 0.75:
            parts.append(f"__{R.choice(lib)['n']}__")
        elif kind < 0.8:
            parts.append("{" + f"{R.randint(1, 8)}$$__{R.choice(lib)['n']}__" + "}")
        elif kind < 0.85:
            many = "".join("{" + options(f"{i}m{j}", 9) + "}" for j in range(9))
            parts.append(R.choice([f"{{{many}|z}}", f"{{2$${many}|y|z}}", f"%{{{many}...b$$x}}", f"%{{a...b$${many}}}", f"${{v{i}={many}}}${{v{i}}}"]))
        elif kind < 0.9:
            many = "".join("{" + options(f"{i}m{j}", 9) + "}" for j in range(9))
            parts.append(f"%{{{many}...{many}$${many}}}")
        else:
            parts.append(R.choice([" ", ", ", " lit "]))
    return "".join(parts)


def c02(run):
    def limits(c):
        top = 8 if c is None else min(c + 1, 8)
        return [("C", n, False) for n in range(top + 1)] + ([("C", c - 1, False), ("C", c, False), ("C", c + 1, False)] if c and c > 8 else [])
    modelled(run, ["plain", "vars"], limits)
    R = run.rng
    ns = {"C": [0, 1, 1, 2, 3, 4, 5, 6, 8, 9, 11, 16, 33, FULL], "R": [0, 1, 2, 3, 5, 9], "Y": [0, 1, 2, 5, 13]}
    fuzz(run, [
        (4, P(tokens=3), {"modes": "C", "libkw": LIB, "ns": ns}),
        (2, P(tokens=3, get=2, set=2, wrap=1), {"modes": "C", "libkw": LIB, "ns": ns}),
        (2, P(tokens=3, symbols=0.2), {"modes": "C", "libkw": LIB, "ns": ns}),
        (1, P(tokens=3, get=1, set=1, wrap=1, symbols=0.1), {"modes": "RY", "libkw": LIB, "ns": ns}),
    ], run.scale(4000, 100000), "limits")
    groups = []
    for _ in range(run.scale(150, 2500)):
        lib = [{"n": f"big{i}", "items": [{"s": f"v{i}x{j:03}", "w": 1000} for j in range(R.randint(5, 150))]}
               for i in range(3)]
        m = R.choice("CCCCY")
        groups.append({"lib": lib, "m": m, "k": gen.SYNTAX, "seed": R.randrange(10**6), "runs": [
            {"s": huge_template(R, lib), "n": R.choice([0, 1, 2, 5, 17, 60]), "via": R.choice(["ctx", "lazy", "gen", "cmd"])}
            for _ in range(2)]})
    check_groups(run, groups, part="huge templates", timeout=6)
    batched(run)


def batched_group(g):
    """A batched generator over an inner one, and the inner one's own lists."""
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator
    from dynamicprompts.generators.promptgenerator import PromptGenerator

    inner = observe.generator(g)
    calls = []

    class Spy(PromptGenerator):
        def generate(self, *a, **kw):
            res = inner.generate(*a, **kw)
            calls.append(list(res))
            return res

    out = BatchedCombinatorialPromptGenerator(Spy(), g["batches"]).generate(g["s"], g["n"])
    return {"out": [str(p) for p in out], "calls": calls}


def batched(run):
    R = run.rng
    cases = []
    for i in range(run.scale(300, 4000)):
        lib = gen.library(R, nested=0.2)
        t = gen.TemplateGen(R, P(tokens=3), names=[c["n"] for c in lib])
        cases.append({"s": t.template(), "n": R.choice([0, 1, 2, 4, 9]), "lib": lib, "m": R.choice("CCR"), "k": gen.SYNTAX,
                      "batches": R.choice([0, 1, 2, 3, 5]), "seed": i})
    check_batched(run, cases)


def check_batched(run, cases):
    obs = pool.run_cases(batched_group, cases)
    lines = [{"id": i, "batches": c["batches"], "n": c["n"], "s": c["s"], "lib": c["lib"], "k": c["k"], "m": c["m"],
              "out": o.get("out", [o.get("fatal", "")]), "calls": o.get("calls", [])}
             for i, (c, o) in enumerate(zip(cases, obs))]
    for i, v in sorted(run.judge("BatchTrace", lines, part="batched").items()):
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "batched", **cases[i]}, lines[i]["out"])


def draws(run, total, ndraws, want, part, profile, libkw):
    R = run.rng
    cases = []
    for i in range(total):
        lib = gen.library(R, **libkw)
        t = gen.TemplateGen(R, profile, names=[c["n"] for c in lib] + ["e/*", "*"])
        s = t.template()
        fresh = "!" in s or "@" in s or "__{" in s or "__$" in s
        cases.append({"s": s, "lib": lib, "m": "R", "k": gen.SYNTAX, "ws": R.random() < 0.1, "unk": "", "seed": i,
                      "draws": ndraws, "want": want, "via": "runs" if fresh else R.choice(["stream", "gen", "runs"])})
    judge_draws(run, cases, part)


def judge_draws(run, cases, part):
    obs = pool.run_cases(observe.draws_group, cases, timeout=120)
    lines = [{"id": i, **{k: c[k] for k in ("s", "lib", "k", "ws", "unk", "draws", "want")},
              "counts": o.get("counts", [{"s": o.get("fatal"), "n": 1}])} for i, (c, o) in enumerate(zip(cases, obs))]
    for i, v in sorted(run.judge("DrawTrace", lines, part=part).items()):
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "draws", **cases[i]}, lines[i]["counts"][:40])
    run.sample({"template": lines[0]["s"], "draws": lines[0]["draws"], "counts": lines[0]["counts"][:5]})


def joint_group(g):
    """Many runs of one template: how often each list of prompts came up."""
    wm = observe.manager(g["lib"], g["k"]["ww"])
    ctx, made = observe.context(g, wm), observe.generator(g, wm)
    rows = {}
    for i in range(g["times"]):
        out = tuple(observe.one(ctx, made, g["via"], g["s"], g["want"]))
        rows[out] = rows.get(out, 0) + 1
    return {"rows": [{"out": list(o), "n": n} for o, n in sorted(rows.items())]}


def joint(run, total, modes, part="repeated runs"):
    """Prompts of one run are drawn independently of one another."""
    R = run.rng
    cases = []

    def finite():
        return R.choice(["{p|q}", "{p|q|r}", "x ", " ", ", ", "{p{q|r}|s}", "{1-2$$p|q}"])

    def drawn():
        return R.choice(["{~a|b}", "{~a|b|c}", "{~a{b|c}|d}", "__~c__", "__~d__", "{~2$$a|b|c}", "{~1-2$$a|b}", "{~__c__}", "{~a}{~b|c}"])

    for i in range(total):
        m = R.choice(modes)
        lib = [{"n": "c", "items": [{"s": x, "w": 1000} for x in "uv"]},
               {"n": "d", "items": [{"s": "s", "w": 2000}, {"s": "t", "w": 1000}]}]
        if m == "C":
            parts = [finite() if R.random() < 0.5 else drawn() for _ in range(R.randint(2, 4))]
            s = "".join(parts)
            if R.random() < 0.4:
                s = "%{" + finite() + R.choice(["...", "", "\u2026"]) + R.choice(["", finite()]) + "$$" + s + "}"
        else:
            lib = gen.library(R, nested=0.2, variables=0.2)
            s = gen.TemplateGen(R, P(tokens=2, get=1, set=1, wrap=1, depth=2), names=[c["n"] for c in lib]).template()
        cases.append({"s": s, "lib": lib, "m": m, "k": gen.SYNTAX, "seed": i, "want": R.choice([2, 3]), "times": 100, "via": R.choice(["ctx", "gen", "lazy", "cmd"])})
    check_joint(run, cases, part)


def check_joint(run, cases, part):
    obs = pool.run_cases(joint_group, cases, timeout=60)
    run.clock(f"{part}: observed")
    lines = [{"id": i, **{k: c[k] for k in ("s", "lib", "m", "k", "want")}, "rows": o["rows"]} for i, (c, o) in enumerate(zip(cases, obs)) if "rows" in o]
    for i, v in sorted(run.judge("JointTrace", lines, part=part).items()):
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "joint", **cases[i]}, next(x for x in lines if x["id"] == i)["rows"][:20])


def c03(run):
    modelled(run, ["plain", "select", "vars"], in_modes("R", nr=6))
    fuzz(run, [
        (4, P(tokens=3, depth=3), {"modes": "R", "libkw": LIB}),
        (2, P(tokens=3, get=2, set=2, wrap=1, undefined=0.05), {"modes": "R", "libkw": LIBV, "ctxvars": 0.2}),
        (2, P(tokens=3, weights=0.6), {"modes": "R", "libkw": LIBW}),
        (1, P(tokens=3, wildcard=6, computed=0.3, params=0.3), {"modes": "R", "libkw": LIBV}),
    ], run.scale(5000, 100000), "random runs")
    draws(run, run.scale(300, 6000), 700, "support", "support",
          P(weights=0.4, bounds=0.5, get=1, set=1, wrap=0.5, tokens=2, depth=2, params=0.2, computed=0.1, zero=0.2, dups=0.02),
          {"nested": 0.2, "weighted": 0.4, "values": 4, "variables": 0.2})
    # wildcards and variants with hundreds of alternatives
    R, cases = run.rng, []
    for i in range(run.scale(16, 300)):
        n = R.randint(102, 200)
        lib = [{"n": "w", "items": [{"s": f"v{j:03}", "w": 1000} for j in range(n)]}]
        s = R.choice(["__w__", "__w__", "k __w__", "{__w__}", "{1$$__w__}", "${v=__w__}${v}", "{" + "|".join(f"o{j}" for j in range(n // 2)) + "}"])
        cases.append({"s": s, "lib": lib, "m": "R", "k": gen.SYNTAX, "ws": False, "unk": "", "seed": i, "draws": 8000, "want": "support",
                      "via": R.choice(["stream", "gen"])})
    judge_draws(run, cases, "support of hundreds")
    joint(run, run.scale(200, 4000), "R")


def select_cases(run, total):
    R = run.rng
    groups = []
    for _ in range(total):
        n = R.choice([2, 3, 4, 5, 6, 8, 12, 20, 40])
        words = [f"{R.choice('abcdefg')}{j}" for j in range(n)]
        lo = R.choice([0, 1, 1, 2, 3, n - 1, n, n + 1])
        hi = R.choice([lo, lo, n, n + 3, R.randint(min(lo, n), n)])
        b = R.choice([f"{lo}", f"{lo}-{hi}", f"{hi}-{lo}", f"{lo}-", f"-{hi}"])
        sep = R.choice(["", "", ", $$", " and $$", "|$$", ";$$", "--$$", " $$"])
        lib = []
        if R.random() < 0.4:
            half = R.randint(1, n)
            lib = [{"n": "q/a", "items": [{"s": w, "w": 1000} for w in words[:half]]},
                   {"n": "q/b", "items": [{"s": w, "w": 1000} for w in words[half:]]}]
            body = "__" + R.choice(["q/*", "q/a", "**/b", "a"]) + "__"
        else:
            wts = [R.choice(["", "", "2::", "0.5::", "7::"]) for _ in words]
            if R.random() < 0.3:  # zero weights, leaving enough positive ones
                for j in range(max(0, n - max(min(lo, n), min(hi, n), 1))):
                    if R.random() < 0.5:
                        wts[j] = "0::"
            body = "|".join(w + x for w, x in zip(wts, words))
        groups.append({"lib": lib, "m": "R", "k": gen.SYNTAX, "seed": R.randrange(10**6),
                       "runs": [{"s": "{" + f"{b}$${sep}{body}" + "}", "n": 12, "via": R.choice(["ctx", "gen"])}]})
    return groups


def c04(run):
    modelled(run, ["select", "twins"], in_modes("CRY"))
    b = dict(bounds=0.95, zero=0.2, variant=8, lit=4, many=0.1)
    fuzz(run, [
        (4, P(tokens=2, depth=1, **b), {"modes": "CRY", "libkw": LIB}),
        (2, P(tokens=2, depth=2, **b), {"modes": "CRY", "libkw": LIB}),
        (2, P(tokens=2, depth=1, dups=0.5, **b), {"modes": "CRY", "libkw": LIB}),
        (1, P(tokens=2, depth=1, symbols=0.15, **b), {"modes": "CRY", "libkw": LIB}),
        (1, P(tokens=2, depth=1, get=2, set=2, wrap=1, **b), {"modes": "CRY", "libkw": LIBV}),
    ], run.scale(4000, 100000), "multi-select runs")
    # {k$$__wildcard__}
    R = run.rng
    groups = []
    for _ in range(run.scale(700, 15000)):
        lib = gen.library(R, nested=0.2, values=5, weighted=R.choice([0, 0, 0.4]), variables=0.1)
        name = R.choice([c["n"] for c in lib] + list(NAMES) + ["nope"])
        lo = R.choice([0, 1, 2, 2, 3, 9])
        bound = R.choice([f"{lo}$$", f"{lo}-{R.randint(lo, 9)}$$", f"-{max(lo, 1)}$$", f"{lo}-$$"])
        sep = R.choice(["", " and $$", ", $$", "|$$"])
        par = R.choice(["", "", f"({R.choice(gen.VARS)}=x)"])
        s = R.choice(["", "k "]) + "{" + bound + sep + R.choice(["", " "]) + f"__{name}{par}__" + R.choice(["", " "]) + "}"
        m = R.choice("CRY")
        groups.append({"lib": lib, "m": m, "k": gen.SYNTAX, "seed": R.randrange(10**6),
                       "runs": [{"s": s, "n": R.choice(NS[m]), "via": R.choice(VIAS)}]})
    check_groups(run, groups, part="wildcard selections")
    check_groups(run, select_cases(run, run.scale(600, 10000)), part="large selections", module="SelectTrace")


def c05(run):
    modelled(run, ["weight"], in_modes("CRY"))
    draws(run, run.scale(160, 3000), 3000, "freq", "frequencies",
          P(weights=0.7, bounds=0.4, tokens=1, lit=1, variant=6, wildcard=4, get=1, set=0.5, wrap=0.5, depth=1, dups=0.02, many=0.1),
          {"nested": 0.15, "weighted": 0.6, "values": 4, "variables": 0.1})
    R = run.rng
    cases = []
    for i in range(run.scale(100, 2000)):  # a multi-select of weighted options or values
        n = R.randint(2, 5)
        k = R.randint(1, min(n, 3))
        ws = [R.choice([1, 1, 2, 3, 5, 0.5, 8, 0.05]) for _ in range(n)]
        bound = R.choice(["", f"{k}$$", f"{k}$$", f"1-{k}$$"])
        names = [f"o{R.randrange(2) if R.random() < 0.5 else j}" for j in range(n)] if R.random() < 0.4 else [f"o{j}" for j in range(n)]
        if R.random() < 0.6:
            lib, body = [], "|".join((f"{w}::" if w != 1 or R.random() < 0.2 else "") + o for o, w in zip(names, ws))
            s = "{" + bound + body + "}"
        else:
            lib = [{"n": "w", "items": [{"s": o, "w": int(1000 * w)} for o, w in zip(names, ws)]}]
            s = "{" + bound + "__w__}" if R.random() < 0.7 else "__w__"
        cases.append({"s": s, "lib": lib, "m": "R", "k": gen.SYNTAX, "ws": False, "unk": "", "seed": i, "draws": 4000,
                      "want": "freq", "via": R.choice(["stream", "gen", "runs"])})
    judge_draws(run, cases, "weighted selections")
    w = dict(weights=0.4, wildcard=8, lit=3, variant=3, bounds=0.2)
    fuzz(run, [
        (3, P(tokens=2, depth=1, **w), {"modes": "CY", "libkw": LIBW}),
        (1, P(tokens=2, depth=1, **w), {"modes": "CY", "libkw": {**LIBW, "nested": 0.5}}),
        (1, P(tokens=2, depth=1, symbols=0.2, **w), {"modes": "CY", "libkw": LIBW}),
    ], run.scale(1500, 40000), "weights in combinatorial and cyclical runs")


def c06(run):
    modelled(run, ["plain", "select", "vars", "wild"], in_modes("Y", ny=25))
    ny = {"Y": [1, 3, 8, 20, 40, 60]}
    fuzz(run, [
        (4, P(tokens=3, depth=2), {"modes": "Y", "libkw": LIB, "ns": ny}),
        (2, P(tokens=3, depth=3, variant=8), {"modes": "Y", "libkw": LIB, "ns": ny}),
        (2, P(tokens=2, depth=1, bounds=0.8, zero=0.2, dups=0.3), {"modes": "Y", "libkw": LIB, "ns": ny}),
        (2, P(tokens=3, get=3, set=3, params=0.2, undefined=0.05), {"modes": "Y", "libkw": LIBV, "ns": ny, "ctxvars": 0.2}),
        (1, P(tokens=3, wrap=3, ellipsis=0.1), {"modes": "Y", "libkw": LIB, "ns": ny}),
        (2, P(tokens=3, wildcard=6, computed=0.2), {"modes": "Y", "libkw": {"nested": 0.4, "values": 6}, "ns": ny}),
        (1, P(tokens=3, wildcard=6), {"modes": "Y", "libkw": LIBW, "ns": ny}),
    ], run.scale(6000, 150000), "cyclical runs")
    # long cycles: whole rounds of large parts
    R = run.rng
    groups = []
    for _ in range(run.scale(160, 3000)):
        lib = [{"n": "w", "items": [{"s": f"v{j:03}", "w": 1000} for j in range(R.randint(2, 150))]}]
        parts = []
        for _ in range(R.randint(1, 3)):
            n = R.randint(2, 12)
            opts = "|".join(f"{R.choice('abc')}{j}" for j in range(n))
            k = R.randint(0, 3)
            parts.append(R.choice([
                "{" + opts + "}", "{" + f"{R.randint(0, k)}-{k}$$" + opts + "}", "{" + f"{k}$$ & $$" + opts + "}",
                "__w__", "{" + f"{min(k, 2)}$$__w__" + "}", "lit"]))
        groups.append({"lib": lib, "m": "Y", "k": gen.SYNTAX, "seed": 0, "runs": [
            {"s": " ".join(parts), "n": R.choice([90, 150, 300]), "via": R.choice(["ctx", "lazy", "cmd"])}]})
    check_groups(run, groups, part="long cyclical runs", timeout=20)


def c07(run):
    modelled(run, ["marks"], in_modes("CRY"))
    lib = {"nested": 0.4, "symbols": 0.5}
    s = dict(symbols=0.5, tokens=4)
    fuzz(run, [
        (5, P(symbol_set="@@@~!", **s), {"modes": "C", "libkw": lib}),
        (2, P(symbol_set="@", get=2, set=2, **s), {"modes": "CCRY", "libkw": lib}),
        (2, P(symbol_set="@~!", get=2, set=2, **s), {"modes": "CRY", "libkw": {**lib, "variables": 0.2}}),
        (2, P(symbol_set="!", depth=3, **s), {"modes": "RYC", "libkw": lib}),
        (1, P(symbol_set="@@~", wrap=2, ellipsis=0.1, **s), {"modes": "CY", "libkw": lib}),
        (2, P(symbol_set="@@~", lit=1, dups=0.6, symbols=0.8, tokens=4, depth=0, opts=2, bounds=0.1), {"modes": "C", "libkw": lib}),
    ], run.scale(6000, 150000), "mixed runs")
    joint(run, run.scale(300, 6000), "C")


def c08(run):
    modelled(run, ["vars"], in_modes("CRY"))
    v = dict(get=6, set=5, params=0.2, tokens=5)
    fuzz(run, [
        (4, P(undefined=0.1, **v), {"modes": "CRY", "libkw": LIBV, "ctxvars": 0.3}),
        (2, P(undefined=0.3, depth=1, **v), {"modes": "CRY", "libkw": LIBV, "unk": 0.5}),
        (2, P(immediate=0.8, depth=1, **v), {"modes": "CRY", "libkw": LIBV, "ctxvars": 0.3}),
        (1, P(symbols=0.15, **v), {"modes": "CRY", "libkw": LIBV}),
        (1, P(wildcard=6, depth=1, **v), {"modes": "CRY", "libkw": {"nested": 0.1, "variables": 0.8}, "ctxvars": 0.3}),
    ], run.scale(6000, 150000), "variables")


def c09(run):
    modelled(run, ["wild"], in_modes("CRY"))
    v = dict(wildcard=9, lit=4, variant=3, get=2, set=3, tokens=4, depth=1)
    lib = {"nested": 0.1, "variables": 0.7, "values": 4}
    fuzz(run, [
        (4, P(params=0.7, **v), {"modes": "CRY", "libkw": lib, "ctxvars": 0.3}),
        (3, P(computed=0.7, undefined=0.4, **v), {"modes": "CRY", "libkw": lib, "ctxvars": 0.3, "unk": 0.2}),
        (2, P(computed=0.4, params=0.5, symbols=0.1, **v), {"modes": "CRY", "libkw": lib, "ctxvars": 0.3}),
    ], run.scale(5000, 120000), "wildcard parameters and computed names")


def c10(run):
    modelled(run, ["wrap"], in_modes("CRY"))
    v = dict(wrap=8, lit=4, variant=4, tokens=2, ellipsis=0.3)
    fuzz(run, [
        (4, P(depth=2, **v), {"modes": "CRY", "libkw": LIB}),
        (2, P(depth=2, get=2, set=2, **v), {"modes": "CRY", "libkw": LIBV}),
        (1, P(depth=3, **v), {"modes": "CRY", "libkw": LIB}),
        (1, P(depth=2, symbols=0.1, **v), {"modes": "RY", "libkw": LIB}),
    ], run.scale(5000, 120000), "wrap")


def c15(run):
    spec = []
    for k in ALT_SYNTAX:
        lib = {"nested": 0.3, "variables": 0.2}
        spec += [
            (2, P(get=2, set=2, wrap=1, params=0.15), {"modes": "CRY", "libkw": lib, "k": k}),
            (1, P(get=1, set=1, wrap=1, symbols=0.2, comments=0.1), {"modes": "CRY", "libkw": lib, "k": k}),
        ]
    spec.append((4, P(get=2, set=2, wrap=1), {"modes": "CRY", "libkw": LIBV}))
    fuzz(run, spec, run.scale(4000, 80000), "custom syntax")


def c16(run):
    modelled(run, ["space"], in_modes("CRY", ws=(False, True)))
    s = dict(tokens=4, spaces=0.4)
    fuzz(run, [
        (3, P(comments=0.5, **s), {"modes": "CRY", "libkw": LIB, "ws": 0.3}),
        (2, P(comments=0.4, get=2, set=2, wrap=1, params=0.2, **s), {"modes": "CRY", "libkw": LIBV, "ws": 0.3}),
        (2, P(**s), {"modes": "CRY", "libkw": LIB, "ws": 0.7}),
        (2, P(wildcard=5, get=1, set=1, **s), {"modes": "CRY", "libkw": {"nested": 0.4, "variables": 0.1}, "ws": 0.7}),
        (2, P(blanks=0.3, **s), {"modes": "CRY", "libkw": LIB, "ws": 0.7}),
    ], run.scale(4800, 100000), "comments and whitespace")
    R, groups = run.rng, []
    for _ in range(run.scale(16, 300)):  # long runs
        m = R.choice("CRY")
        lib = [{"n": "w", "items": [{"s": f"v{j:03}  z", "w": 1000} for j in range(R.randint(101, 200))]}]
        s = R.choice([" ", ""]) + R.choice(["__w__", "{a|b}  __w__", "{" + " | ".join(f"a  {j}" for j in range(R.randint(60, 120))) + "}"]) + R.choice(["  q", "\n", "# n\n x"])
        groups.append({"lib": lib, "m": m, "k": gen.SYNTAX, "ws": R.random() < 0.8, "seed": R.randrange(999),
                       "runs": [{"s": s, "n": R.choice([120, 250]), "via": R.choice(VIAS)}]})
    check_groups(run, groups, part="long runs", timeout=20)
