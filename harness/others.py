"""Checks of the generators that wrap others: Jinja (C19), attention (C20),
magic prompts (C21), search (C22)."""
from __future__ import annotations

import gen
import observe
import pool
import sampling

K = gen.SYNTAX


# ------------------------------ C19 ----------------------------------------
def q(s):
    return '"' + s + '"'


def show_list(e):
    if e["k"] == "lit":
        return "[" + ", ".join(map(q, e["xs"])) + "]"
    if e["k"] == "wild":
        return f'wildcard({q(e["s"])})'
    if e["k"] == "comb":
        return f'all_combinations({q(e["s"])})'
    hi = "" if e["hi"] < 0 else f', {e["hi"]}'
    return f'permutations([{", ".join(map(q, e["xs"]))}], {e["lo"]}{hi})'


def show(n):
    """The text of a node (Jinja.tla has the same)."""
    t = n["t"]
    if t == "txt":
        return n["s"]
    if t == "var":
        return "{{ " + n["n"] + " }}"
    if t == "tup":
        return "{{ " + n["n"] + f'|join({q(n["sep"])})' + " }}"
    if t == "choice":
        return "{{ choice(" + ", ".join(map(q, n["xs"])) + ") }}"
    if t == "wchoice":
        return "{{ weighted_choice(" + ", ".join(f'({q(x["s"])}, {x["w"]})' for x in n["xs"]) + ") }}"
    if t == "sample":
        return "{{ random_sample(" + q(n["s"]) + ") }}"
    if t == "rint":
        return "{{ randint(" + f'{n["lo"]}, {n["hi"]}' + ") }}"
    if t == "join":
        return "{{ " + show_list(n["e"]) + f'|join({q(n["sep"])})' + " }}"
    if t == "prompt":
        return "{% prompt %}" + show_all(n["body"]) + "{% endprompt %}"
    if t == "for":
        return "{% for " + n["n"] + " in " + show_list(n["e"]) + " %}" + show_all(n["body"]) + "{% endfor %}"
    if t == "if":
        c = n["c"]
        cond = f'{c["n"]} == {q(c["s"])}' if c["k"] == "eq" else c["n"] if c["k"] == "has" else "choice(true, false)"
        other = "{% else %}" + show_all(n["b"]) if n["b"] else ""
        return "{% if " + cond + " %}" + show_all(n["a"]) + other + "{% endif %}"
    if t == "set":
        return "{% set " + n["n"] + " = choice(" + ", ".join(map(q, n["xs"])) + ") %}"
    raise AssertionError(n)


def show_all(ns):
    return "".join(map(show, ns))


class JinjaGen:
    """Random templates; fan: how many outcomes there may be."""

    def __init__(self, R, lib, k):
        self.R, self.lib, self.k = R, lib, k
        prof = gen.Profile(bounds=0.3, unknown=0.05, spaces=0, odd=0, weights=0.1, depth=1, tokens=2, opts=3, many=0)
        self.tg = gen.TemplateGen(R, prof, names=[c["n"] for c in lib], k=k)

    def words(self, n):
        return self.R.sample(["a", "b", "red", "x y", "7", "", "Z"], n)

    def list(self):
        R = self.R
        x = R.randrange(6)
        if x == 0:
            return {"k": "lit", "xs": self.words(R.randint(0, 3))}, 3
        if x <= 2:
            return {"k": "wild", "s": R.choice([c["n"] for c in self.lib] + ["nope", "*"])}, 6
        if x <= 4:
            return {"k": "comb", "s": self.tg.template()}, 6
        n = R.randint(1, 3)
        lo = R.randint(0, n)
        return {"k": "perm", "xs": R.sample(["p", "q", "r", "s"], n), "lo": lo, "hi": R.choice([-1, lo, n, n + 1])}, 12

    def nodes(self, depth, fan, scope, top, loop=0):
        out = []
        for _ in range(self.R.choice([1, 1, 2, 2, 3])):
            n, fan = self.node(depth, fan, scope, top, loop)
            out.append(n)
        return out, fan

    def node(self, depth, fan, scope, top, loop):
        R = self.R
        kinds = ["txt"] * 3 + ["var"] * 2 + ["join"]
        if fan >= 4 and not loop:
            kinds += ["choice", "wchoice", "sample", "rint", "coin"] + (["set"] if top else [])
        if depth:
            kinds += ["prompt"] * 4 + ["for"] * 3 + ["if"] * 2
        t = R.choice(kinds)
        if t == "txt":
            return {"t": "txt", "s": R.choice(["x", " y ", "a, b", "  ", "{a|b}", "__c__", "# n", "é", "\n\n z", "100%", "$5", "(k:1.1)"])}, fan
        if t == "var":
            n = R.choice(list(scope) + ["w", "undef"])
            if scope.get(n) == "tuple":
                return {"t": "tup", "n": n, "sep": R.choice([",", " + "])}, fan
            return {"t": "var", "n": n}, fan
        if t == "join":
            e, _ = self.list()
            if e["k"] == "perm":
                e = {"k": "lit", "xs": e["xs"]}
            return {"t": "join", "e": e, "sep": R.choice([", ", "|", ""])}, fan
        if t == "choice":
            return {"t": "choice", "xs": self.words(R.randint(1, 3))}, fan // 3
        if t == "wchoice":
            return {"t": "wchoice", "xs": [{"s": w, "w": R.choice([1, 2, 0, 5])} for w in self.words(2)] + [{"s": "k", "w": 1}]}, fan // 3
        if t == "sample":
            return {"t": "sample", "s": self.tg.template()}, fan // 6
        if t == "rint":
            lo = R.randint(-1, 3)
            return {"t": "rint", "lo": lo, "hi": lo + R.randint(0, 2)}, fan // 3
        if t == "set":
            n = R.choice(["s1", "s2"])
            xs = self.words(R.randint(1, 2))
            scope[n] = "str"
            return {"t": "set", "n": n, "xs": xs}, fan // 2
        if t == "prompt":
            body, fan = self.nodes(depth - 1, fan, dict(scope), False, loop)
            return {"t": "prompt", "body": body}, fan
        if t == "for":
            e, size = self.list()
            n = R.choice(["i", "j"])
            body, _ = self.nodes(depth - 1, 0, {**scope, n: "tuple" if e["k"] == "perm" else "str"}, False, loop + size)
            return {"t": "for", "n": n, "e": e, "body": body}, fan
        if t == "coin":
            a, fan = self.nodes(max(0, depth - 1), fan // 2, dict(scope), False, loop)
            return {"t": "if", "c": {"k": "coin"}, "a": a, "b": []}, fan
        strs = [n for n, k in scope.items() if k == "str"] + ["w", "undef"]
        n = R.choice(strs)
        c = R.choice([{"k": "eq", "n": n, "s": R.choice(["W", "a", "p", "m", "red"])}, {"k": "has", "n": n}])
        a, fan = self.nodes(depth - 1, fan, dict(scope), False, loop)
        b, fan = self.nodes(depth - 1, fan, dict(scope), False, loop) if R.random() < 0.5 else ([], fan)
        return {"t": "if", "c": c, "a": a, "b": b}, fan


MALFORMED = ["{% prompt %}x", "{% endprompt %}", "{{ x", "{% for i in %}x{% endfor %}", "{% foo %}", "a {{ x|nofilter }}", "{% if %}{% endif %}",
             "{% prompt %}x{% endprompt", "{% for i in [1] %}{% prompt %}{{ i }}{% endfor %}{% endprompt %}", "{{ 1 + }}", "{# open",
             "{% prompt %}{% prompt %}x{% endprompt %}", "{% block a %}{% endblock %}{% block a %}{% endblock %}"]
BOOM = ["{% prompt %}left over{% endprompt %}{{ 1 // 0 }}", "{% for i in [1, 2] %}{% prompt %}b{{ i }}{% endprompt %}{% endfor %}{{ choice() }}",
        "{% prompt %}z{% endprompt %}{{ none.x.y }}"]


def jinja_one(case):
    """Calls of one generator, in order."""
    from dynamicprompts.generators import JinjaGenerator

    k = case["k"]
    g = JinjaGenerator(
        wildcard_manager=observe.manager(case["lib"], k["ww"]), context={v["n"]: v["s"] for v in case["ctx"]},
        parser_config=observe.parser_config(k), unlink_seed_from_prompt=case["unlink"],
        ignore_whitespace=case["ws"], limit_prompts=case["limit"],
    )
    outs = observe.Results()
    for c in case["calls"]:
        try:
            outs.add(g.generate(c["tpl"], c["n"]))
        except Exception as e:
            outs.error(pool.err(e))
    return {"outs": outs.done()}


def check_jinja(run, cases, part, many=False):
    obs = pool.run_cases(jinja_one, cases, timeout=20)
    lines, where = [], []
    for ci, (c, o) in enumerate(zip(cases, obs)):
        for j, call in enumerate(c["calls"]):
            if call.get("boom"):
                continue
            out = o["outs"][j] if "outs" in o else [o["fatal"]]
            lines.append({"id": len(lines), "k": c["k"], "lib": c["lib"], "ws": c["ws"], "limit": c["limit"], "ctx": c["ctx"],
                          "bad": bool(call.get("bad")), "ast": call.get("ast", []), "tpl": call["tpl"], "n": call["n"], "out": out, "many": many})
            where.append((ci, j))
    run.clock(f"{part}: observed")
    bad = run.judge("JinjaTrace", lines, part=part)
    run.clock(f"{part}: judged")
    for i, v in sorted(bad.items())[:20]:
        if v not in ("skip", "unjudged"):
            ci, j = where[i]
            run.violation(v, {"kind": "jinja", "many": many, "case": {**cases[ci], "calls": cases[ci]["calls"][: j + 1]}}, lines[i]["out"])
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"template": x["tpl"], "n": x["n"], "prompts": x["out"][:4]})
    return bad


def c19(run):
    R = run.rng
    out = run.model("MCJinja", cfg=run.scale("MCJinja.cfg", "MCJinjaDeep.cfg"))
    lib = [{"n": "c", "items": [{"s": "p", "w": 1000}, {"s": "{q|r} ", "w": 1000}]}]
    by = {True: [], False: []}
    for x in run.printed(out):
        by[x["limit"]].append({"ast": x["ast"], "tpl": x["tpl"], "n": x["n"]})
    cases = []
    for limit, calls in by.items():
        for ws in (False, True):
            R.shuffle(calls)
            for i in range(0, len(calls), 30):
                xs = [dict(c) for c in calls[i:i + 30]]
                for j in range(0, len(xs), 7):
                    xs.insert(j, {"tpl": R.choice(MALFORMED), "n": 1, "bad": True} if j % 2 else {"tpl": R.choice(BOOM), "n": 1, "boom": True})
                cases.append({"k": K, "lib": lib, "ws": ws, "limit": limit, "unlink": False, "ctx": [{"n": "w", "s": "W"}, {"n": "e", "s": ""}], "calls": xs})
    check_jinja(run, cases, "small templates")
    cases = []
    for _ in range(run.scale(900, 15000)):
        k = R.choice([K, K, K] + [s for s in sampling.ALT_SYNTAX if s["vs"] in "<[(" or s["ww"] == "++"])
        lib = gen.library(R, size=R.randint(1, 3), values=3, nested=0.25, weighted=0.1, k=k)
        jg = JinjaGen(R, lib, k)
        calls = []
        for _ in range(R.randint(1, 4)):
            x = R.random()
            if x < 0.06:
                calls.append({"tpl": R.choice(MALFORMED), "n": R.randint(1, 2), "bad": True})
            elif x < 0.12:
                calls.append({"tpl": R.choice(BOOM), "n": R.randint(1, 2), "boom": True})
            else:
                ast, _ = jg.nodes(3, 40, {}, True)
                if show_all(ast).endswith("\n"):
                    continue
                calls.append({"ast": ast, "tpl": show_all(ast), "n": R.choice([0, 1, 1, 2, 2, 3, 5])})
        cases.append({"k": k, "lib": lib, "ws": R.random() < 0.3, "limit": R.random() < 0.4, "unlink": R.random() < 0.3,
                      "ctx": [{"n": "w", "s": R.choice(["W", "a", "red", "x  y"])}], "calls": calls})
    bad = check_jinja(run, cases, "random templates")
    run.notes.append(f"undecided by the specification: {sum(v == 'skip' for v in bad.values())}")
    # expansions of hundreds of alternatives
    cases = []
    for _ in range(run.scale(24, 300)):
        lib = [{"n": "big", "items": [{"s": f"v{j:03}", "w": 1000} for j in range(R.randint(101, 300))]},
               {"n": "nest", "items": [{"s": "{" + "|".join(f"n{j}" for j in range(R.randint(20, 60))) + "}{p|q|r}", "w": 1000}]}]
        e = R.choice([{"k": "wild", "s": R.choice(["big", "nest", "*"])},
                      {"k": "comb", "s": R.choice(["__big__", "k __nest__", "{2$$" + "|".join("abcdefghijklmnop"[: R.randint(11, 16)]) + "}"])},
                      {"k": "perm", "xs": list("pqrstu"), "lo": R.randint(2, 3), "hi": R.choice([-1, 3, 4])}])
        n = ({"t": "join", "e": e, "sep": ","} if e["k"] != "perm" and R.random() < 0.5 else
             {"t": "for", "n": "i", "e": e, "body": [{"t": "prompt", "body": [{"t": "tup", "n": "i", "sep": "-"} if e["k"] == "perm" else {"t": "var", "n": "i"}]}]})
        cases.append({"k": K, "lib": lib, "ws": False, "limit": R.random() < 0.5, "unlink": False, "ctx": [],
                      "calls": [{"ast": [n], "tpl": show(n), "n": R.choice([1, 2, 150])}]})
    check_jinja(run, cases, "large expansions")
    # every alternative of the random helpers comes up
    cases = []
    for _ in range(run.scale(60, 600)):
        x = R.randrange(5)
        if x == 0:
            n = {"t": "choice", "xs": R.sample(["a", "b", "c", "d e", ""], R.randint(1, 4))}
        elif x == 1:
            n = {"t": "wchoice", "xs": [{"s": s, "w": R.choice([1, 2, 3, 0])} for s in R.sample(["a", "b", "c"], 2)] + [{"s": "k", "w": 1}]}
        elif x == 2:
            n = {"t": "sample", "s": R.choice(["{a|b} __c__", "__c__", "{2$$a|b}", "{a|{b|c}}", "plain"])}
        elif x == 3:
            n = {"t": "rint", "lo": R.randint(-2, 1), "hi": R.randint(1, 3)}
        else:
            n = {"t": "if", "c": {"k": "coin"}, "a": [{"t": "txt", "s": "t"}], "b": [{"t": "txt", "s": "f"}]}
        cases.append({"k": K, "lib": LIBC, "ws": False, "limit": R.random() < 0.5, "unlink": R.random() < 0.5, "ctx": [],
                      "calls": [{"ast": [n], "tpl": show(n), "n": 500}]})
    check_jinja(run, cases, "alternatives", many=True)


LIBC = [{"n": "c", "items": [{"s": "m", "w": 1000}, {"s": "n", "w": 1000}]}]


# ------------------------------ C20 ----------------------------------------
def scripted(prompts, log=None):
    """An inner generator that returns what it is told to."""
    from dynamicprompts.generators.promptgenerator import PromptGenerator

    class Scripted(PromptGenerator):
        def generate(self, *args, **kwargs):
            if log is not None:
                log.append((args, kwargs))
            return list(prompts)

    return Scripted()


def attention_one(case):
    from dynamicprompts.generators import RandomPromptGenerator
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    kw = {}
    if case["lo"] is not None:
        kw = {"min_attention": case["lo"] / 1000, "max_attention": case["hi"] / 1000}
    outs = observe.Results()
    for c in case["calls"]:
        try:
            if case["inner"] == "dummy":
                g = AttentionGenerator(**kw)
                outs.add(g.generate(c[0], len(c)))
            elif case["inner"] == "random":
                # an inner generator of the library, on text without alternatives
                g = AttentionGenerator(RandomPromptGenerator(seed=1), **kw)
                outs.add(g.generate(c[0], len(c), seeds=[3] * len(c)))
            else:
                log = []
                g = AttentionGenerator(scripted(c, log), **kw)
                out = g.generate("t", 7, other=5)
                if log == [(("t", 7), {"other": 5})]:
                    outs.add(out)
                else:
                    outs.error("!!inner")
        except Exception as e:
            outs.error(pool.err(e))
    return {"outs": outs.done()}


def check_attention(run, cases, part):
    obs = pool.run_cases(attention_one, cases)
    lines, where = [], []
    for ci, (c, o) in enumerate(zip(cases, obs)):
        for j, call in enumerate(c["calls"]):
            out = o["outs"][j] if "outs" in o else [o["fatal"]]
            lo, hi = (100, 900) if c["lo"] is None else (c["lo"], c["hi"])
            lines.append({"id": len(lines), "inner": call, "out": out, "lo": lo, "hi": hi})
            where.append((ci, j))
    run.clock(f"{part}: observed")
    bad = run.judge("AttentionTrace", lines, part=part)
    run.clock(f"{part}: judged")
    for i, v in sorted(bad.items())[:20]:
        if v not in ("skip", "unjudged"):
            ci, j = where[i]
            run.violation(v, {"kind": "attention", "case": {**cases[ci], "calls": cases[ci]["calls"][: j + 1]}}, lines[i]["out"])
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"inner": x["inner"][:3], "out": x["out"][:3]})


RANGES = [(None, None), (100, 900), (900, 100), (1000, 1000), (500, 500), (0, 2000), (1200, 800), (-500, 500), (330, 340), (999, 1001), (1, 9), (5000, 12500)]


def c20(run):
    R = run.rng
    texts = [x["s"] for x in run.printed(run.model("MCAttention", cfg=run.scale("MCAttention.cfg", "MCAttentionDeep.cfg")))]
    R.shuffle(texts)
    cases = []
    for i in range(0, len(texts), 25):
        lo, hi = R.choice(RANGES)
        cases.append({"lo": lo, "hi": hi, "inner": "script", "calls": [texts[i:i + 25]]})
    check_attention(run, cases, "small texts")
    words = ["a", "cat", "red cat", "cat on a mat", "1", "42", "x1", "--", "- -", "1 2", "#5", "(cat:1.1)", "[b]", "<lora:x:0.5>", "é", "日本 z", "don't",
             "A", "a  b", "\\", "{a|b}", "%", "(a)", "((b))", "$&", "\\1", "a:b", "0.5"]
    cases = []
    for _ in range(run.scale(2500, 40000)):
        lo, hi = R.choice(RANGES) if R.random() < 0.6 else (R.randint(0, 2000), R.randint(0, 2000))
        pool_ = []
        for _ in range(R.randint(1, 14)):
            s = ""
            for _ in range(R.choice([0, 1, 2, 2, 3, 3, 5])):
                s += R.choice(words) + R.choice([", ", ",", " ", "; ", ". ", "!", "? ", " , , ", ":", "\n", ""])
            pool_.append(R.choice(["", "", " "]) + s + R.choice(["", "", ".", "  "]))
            if R.random() < 0.3:  # texts that are nearly the same
                t = R.choice(pool_)
                pool_.append(R.choice([t.upper(), t.swapcase(), t.title(), t + " ", " ".join(t.split()), t.replace(",", ";"), t.replace(" ", "\u00a0")]))
        inner = R.choice(["script", "script", "script", "dummy", "random"])
        calls = []
        for _ in range(R.randint(1, 3)):
            if inner == "script":
                calls.append([R.choice(pool_) for _ in range(R.choice([0, 1, 2, 5, 20]))])
            else:
                p = R.choice(pool_)
                if inner == "random":
                    p = R.choice(["a cat, a mat", "x; 1; y", "42", "don't, stop"])
                calls.append([p] * R.choice([1, 2, 3]))
        cases.append({"lo": lo, "hi": hi, "inner": inner, "calls": calls})
    check_attention(run, cases, "random texts")


# ------------------------------ C21, C23 -----------------------------------
class Model:
    """Stand-in for the transformers library: what a model says is scripted."""

    def __init__(self):
        self.loads, self.fail, self.seeds, self.parts = [], None, [], {}
        self.reply = lambda model, text: text
        self.settings = []

    def module(self):
        import types

        me = self
        t = types.ModuleType("transformers")

        class Thing:
            def __init__(self, name):
                self.name = name
                self.config = types.SimpleNamespace(eos_token_id=7)
                self.eos_token_id = 7
                self.pad_token_id = None

        def loader(part):
            class Auto:
                @staticmethod
                def from_pretrained(name, *a, **k):
                    if name not in me.loads or part in me.parts[name]:  # one load has two parts
                        me.loads.append(name)
                        me.parts[name] = set()
                    me.parts[name].add(part)
                    if me.fail == part:
                        raise OSError("cannot load")
                    return Thing(name)
            return Auto

        def pipeline(task=None, model=None, tokenizer=None, **k):
            if me.fail == "pipeline":
                raise RuntimeError("no device")
            name = model.name if tokenizer.name == model.name and task == "text-generation" else "?"

            def pipe(texts, **kw):
                me.settings.append({k: kw.get(k) for k in ("max_length", "temperature", "batch_size")})
                if isinstance(texts, str):
                    return [{"generated_text": me.reply(name, texts)}]
                return [[{"generated_text": me.reply(name, x)}] for x in texts]
            return pipe

        t.AutoTokenizer, t.AutoModelForCausalLM = loader("tokenizer"), loader("model")
        t.pipeline, t.set_seed = pipeline, lambda x: me.seeds.append(x)
        return t


FRESH = [0]


def with_model(fn):
    """Run fn(model) with the stand-in installed and no model loaded."""
    import os
    import sys

    m = Model()
    old = sys.modules.get("transformers")
    sys.modules["transformers"] = m.module()
    try:
        from dynamicprompts.generators.magicprompt import MagicPromptGenerator

        FRESH[0] += 1
        return fn(m, MagicPromptGenerator, f"{os.getpid()}-{FRESH[0]}-")
    finally:
        if old is None:
            del sys.modules["transformers"]
        else:
            sys.modules["transformers"] = old


def magic_one(case):
    import re

    def go(m, Magic, fresh):
        outs, texts = [], observe.Results()
        kw = {}
        if case["words"]:
            kw["blocklist_regex"] = "|".join(re.escape(w) for w in case["words"])
        inner = scripted([], log := [])
        lists = iter(case["calls"])
        cur = {}

        class Inner(type(inner)):
            def generate(self, *args, **kwargs):
                log.append((args, kwargs))
                return list(cur["texts"])

        g = Magic(Inner(), model_name=fresh + "m", **kw)
        for c in lists:
            asked = {}

            def reply(name, text):
                asked[text] = asked.get(text, 0) + 1
                a = c["answers"][c["texts"].index(text)]
                return a[min(asked[text], len(a)) - 1]

            m.reply = reply
            cur["texts"] = [c["texts"][o - 1] for o in c["origs"]]
            del log[:]
            try:
                more = {} if c["max"] is None else {"max_attempts": c["max"]}
                texts.add(g.generate("t", 5, other=1, **more))
                e = "" if log == [(("t", 5), {"other": 1})] else "inner generator asked differently"
            except Exception as ex:
                e = pool.err(ex)
                texts.error(e)
            outs.append({"err": e, "asked": [asked.get(t, 0) for t in c["texts"]]})
        return {"outs": [{**o, "out": x} for o, x in zip(outs, texts.done())]}

    return with_model(go)


def check_magic(run, cases, part):
    obs = pool.run_cases(magic_one, cases)
    lines, where = [], []
    for ci, (c, o) in enumerate(zip(cases, obs)):
        for j, call in enumerate(c["calls"]):
            x = o["outs"][j] if "outs" in o else {"out": [], "err": o["fatal"], "asked": []}
            lines.append({"id": len(lines), **call, "max": 20 if call["max"] is None else call["max"], "words": c["words"], **x})
            where.append((ci, j))
    run.clock(f"{part}: observed")
    bad = run.judge("MagicTrace", lines, part=part)
    run.clock(f"{part}: judged")
    for i, v in sorted(bad.items())[:20]:
        ci, j = where[i]
        run.violation(v, {"kind": "magic", "case": {**cases[ci], "calls": cases[ci]["calls"][: j + 1]}}, {k: lines[i][k] for k in ("out", "err", "asked")})
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({k: x[k] for k in ("texts", "origs", "answers", "out", "asked")})


def c21(run):
    R = run.rng
    scripts = list(run.printed(run.model("MCMagic", cfg=run.scale("MCMagic.cfg", "MCMagicDeep.cfg"))))
    cases = []
    for s in scripts:
        answers = [[f"p{o} {'Bad' if b else 'ok'}{k}" for k, b in enumerate(bits, 1)] for o, bits in enumerate(s["script"], 1)]
        cases.append({"words": ["xyz", "BAD"], "calls": [{"origs": [1, 2, 3], "texts": ["p1", "p2", "p3"], "answers": answers, "max": s["max"]}]})
    check_magic(run, cases, "all scripts")
    tidy = [x["s"] for x in run.printed(run.model("MCTidy", cfg=run.scale("MCTidy.cfg", "MCTidyDeep.cfg")))]
    R.shuffle(tidy)
    cases = []
    for i in range(0, len(tidy), 20):
        orig = R.choice(["x", "{x!", "x, , y - z", "", "(x:1.2) "])
        part = tidy[i:i + 20]
        texts = [f"{orig}{k}" if orig else f"{k}" for k in range(len(part))]
        cases.append({"words": [], "calls": [{"origs": list(range(1, len(part) + 1)), "texts": texts,
                                             "answers": [[t + x] for t, x in zip(texts, part)], "max": None}]})
    check_magic(run, cases, "all short continuations")
    words = ["cat", "bobcat", "a dog", "by Greg", "greg r", "oil-paint", "4k", "_", "__", "(sharp", "focus)", "{deep}", "x_y", "1", "2", "Z", "trending on", "-", "$$", "#", ":", "[b]", "é", "\\"]
    seps = [" ", ", ", " , ", ",", "; ", ". ", "..", "! ", "!", "!!! ", " - ", "- ", " _ ", ",,", " , , ", "( ", " )", "\n", "", "  ", "!!!!!! "]
    blocks = [[], ["greg"], ["CAT", "4k"], ["a d"], [", "], ["(cat:1.1)"], ["orig"], ["zzz"], ["o"]]
    cases = []
    for _ in range(run.scale(4000, 60000)):
        bl = R.choice(blocks)
        calls = []
        for _ in range(R.randint(1, 3)):
            texts = []
            for k in range(R.randint(0, 4)):
                t = R.choice(["orig", "a cat", "{a|b} c", "wow! cat!", "x - y", "", "greg", "o , , p", "Ω", "(q:1.1)", "a", "a c"])
                if t not in texts:
                    texts.append(t)
            answers = []
            for t in texts:
                a = []
                for _ in range(R.randint(1, 5)):
                    s = "".join(R.choice(words) + R.choice(seps) for _ in range(R.choice([0, 1, 2, 3, 4, 6])))
                    a.append((t + R.choice(["", " ", ", ", "! ", " - "]) + s) if R.random() < 0.8 else s)
                answers.append(a)
            n = len(texts)
            origs = [R.randint(1, n) for _ in range(R.randint(0, 5))] if n and R.random() < 0.4 else list(range(1, n + 1))
            calls.append({"origs": origs, "texts": texts, "answers": answers, "max": R.choice([0, 1, 1, 2, 3, 5, None])})
        cases.append({"words": bl, "calls": calls})
    check_magic(run, cases, "random scripts")


NAMES = {  # names of models that have something in common
    "plain": lambda x, fresh: fresh + x, "tail": lambda x, fresh: f"{x}/{fresh}base", "head": lambda x, fresh: f"{fresh}org/{x}",
    "case": lambda x, fresh: f"{fresh}{'Model' if x == 'm' else 'model'}", "longer": lambda x, fresh: fresh + ("m" if x == "m" else "mm"),
}


def models_one(case):
    def go(m, Magic, fresh):
        gens, seen = {}, []
        real = {x: NAMES[case["names"]](x, fresh) for x in "mn"}
        plain = {v: k for k, v in real.items()}
        for op in case["ops"]:
            m.loads, m.fail, m.seeds, m.settings = [], None, [], []
            try:
                if op["op"] in ("new", "set"):
                    m.fail = None if op["ok"] else op["how"]
                    if op["op"] == "new":
                        kw, seed = {}, op.get("seed")
                        if op.get("length"):
                            kw = {"max_prompt_length": op["length"], "temperature": op["temp"] / 10, "batch_size": op["batch"]}
                        g = Magic(model_name=real[op["m"]], **kw, **({} if seed is None else {"seed": seed}))
                        gens[op["slot"]] = (g, {"max_length": op.get("length") or 100, "temperature": op["temp"] / 10 if kw else 0.7, "batch_size": op["batch"] if kw else 1})
                        res = "done" if m.seeds == ([] if seed is None else [seed]) else "!!seed"
                    else:
                        gens[op["slot"]][0].set_model(real[op["m"]])
                        res = "done"
                elif op["op"] == "name":
                    res = plain.get(gens[op["slot"]][0].model_name, "?")
                else:
                    g, want = gens[op["slot"]]
                    m.reply = lambda name, text: f"{text} {plain.get(name, name)}"
                    out = g.generate("t", 1)
                    res = out[0][2:] if len(out) == 1 and all(s == want for s in m.settings) else "!!settings"
            except Exception as e:
                res = "!!load" if op["op"] in ("new", "set") and type(e) in (OSError, RuntimeError) and m.fail else pool.err(e)
            seen.append({"res": res, "loads": [plain.get(x, x) for x in m.loads]})
        return {"seen": seen}

    return with_model(go)


def c23(run):
    R = run.rng
    hists = list(run.printed(run.model("MCModels", cfg=run.scale("MCModels.cfg", "MCModelsDeep.cfg"))))
    cases = []
    for h in hists:
        ops, live = [], set()
        loaded = None
        for op in h:
            op = dict(op, how=R.choice(["tokenizer", "model", "pipeline"]))
            if op["op"] == "new" and R.random() < 0.3:
                op.update(seed=R.choice([0, 1, 7]))
            if op["op"] == "new" and R.random() < 0.3:
                op.update(length=R.choice([5, 200]), temp=R.choice([0, 5, 13]), batch=R.choice([1, 4]))
            ops.append(op)
            if op["op"] == "new" and (op["ok"] or loaded == op["m"]):
                live.add(op["slot"])
            loaded = op["m"] if op["ok"] or loaded == op["m"] else None
            for s in sorted(live):
                ops.append({"op": R.choice(["use", "use", "name"]), "slot": s})
        if ops:
            for s in sorted(live):
                ops += [{"op": "use", "slot": s}, {"op": "name", "slot": s}]
            cases.append({"ops": ops, "names": R.choice(sorted(NAMES))})
    check_models(run, cases)


def check_models(run, cases):
    obs = pool.run_cases(models_one, cases)
    lines = [{"id": i, "ops": c["ops"], "seen": o.get("seen", [])} for i, (c, o) in enumerate(zip(cases, obs))]
    run.clock("observed")
    bad = run.judge("ModelsTrace", lines, part="model histories")
    for i, v in sorted(bad.items())[:20]:
        run.violation(v, {"kind": "models", "case": cases[i]}, lines[i]["seen"])
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"ops": [(o["op"], o["slot"], o.get("m")) for o in x["ops"]], "seen": x["seen"]})


# ------------------------------ C22 ----------------------------------------
def lucky_one(case):
    import sys
    import types
    from urllib.parse import parse_qs, urlsplit

    from dynamicprompts.generators import FeelingLuckyGenerator, RandomPromptGenerator

    outs = []
    for c in case["calls"]:
        urls, log = [], []
        fault = {"refused": OSError, "status": RuntimeError, "not-json": ValueError}.get(c["transport"])
        if case["exc"] == "lookup" and fault:
            fault = LookupError

        class Response:
            status_code = 500 if c["transport"] == "status" else 200
            ok = status_code == 200

            def raise_for_status(self):
                if c["transport"] == "status":
                    raise fault("status")

            def json(self, **kw):
                if c["transport"] in ("not-json", "status"):
                    raise fault("json")
                return answer(c)

        def get(url, *a, params=None, **kw):
            p = urlsplit(url)
            q = parse_qs(p.query, keep_blank_values=True, strict_parsing=False)
            for k, v in dict(params or {}).items():
                q.setdefault(k, []).append(str(v))
            good = p[:3] == ("https", "lexica.art", "/api/v1/search") and not p.fragment and list(q) == ["q"] and len(q["q"]) == 1
            urls.append(q["q"][0] if good else "!!" + url)
            if c["transport"] == "refused":
                raise fault("refused")
            return Response()

        r = types.ModuleType("requests")
        r.get = get
        r.request = lambda method, url, *a, **kw: get(url, *a, **kw) if method.lower() == "get" else urls.append("!!" + method)
        r.RequestException = r.HTTPError = r.ConnectionError = OSError
        old = sys.modules.get("requests")
        sys.modules["requests"] = None if c["transport"] == "no-module" else r
        try:
            if case["inner_kind"] == "dummy":
                g, asked = FeelingLuckyGenerator(), 1
                args, kw = (c["inner"], c["n"]), {}
            elif case["inner_kind"] == "random":
                g, asked = FeelingLuckyGenerator(RandomPromptGenerator()), 1
                args, kw = (c["inner"], c["n"]), {"seeds": [4]}
            else:
                g, asked = FeelingLuckyGenerator(scripted([c["inner"], "not this one"], log)), None
                args, kw = ("text", c["n"]), {"other": 2}
            try:
                out, e = [str(x) for x in g.generate(*args, **kw)], ""
            except Exception as ex:
                out, e = [], pool.err(ex)
            if asked is None:
                asked = 1 if [(a + tuple(k.values()), set(k)) for a, k in log] == [(("text", 1, 2), {"other"})] else 0
        finally:
            if old is None:
                del sys.modules["requests"]
            else:
                sys.modules["requests"] = old
        outs.append({"queries": urls, "asked": asked, "err": e, "out": out})
    return {"outs": outs}


def answer(c):
    good = [{"prompt": p, "id": i} for i, p in enumerate(c["prompts"])]
    return {
        "prompts": {"images": good}, "no-images": {"pictures": good}, "null": None, "number": 5, "list": good, "text": "images",
        "none-images": {"images": None}, "text-images": {"images": "abc"}, "map-images": {"images": {"a": good}},
        "no-prompt": {"images": [{"id": 1}, {"text": "x"}]}, "text-entries": {"images": ["p1", "p2"]}, "none-entries": {"images": [None]},
        "mixed": {"images": good + [{"id": 9}]},
    }[c["shape"]]


def check_lucky(run, cases, part):
    obs = pool.run_cases(lucky_one, cases)
    lines, where = [], []
    for ci, (c, o) in enumerate(zip(cases, obs)):
        for j, call in enumerate(c["calls"]):
            x = o["outs"][j] if "outs" in o else {"queries": [], "asked": 1, "err": o["fatal"], "out": []}
            lines.append({"id": len(lines), **call, **x})
            where.append((ci, j))
    run.clock(f"{part}: observed")
    bad = run.judge("LuckyTrace", lines, part=part)
    for i, v in sorted(bad.items())[:20]:
        ci, j = where[i]
        run.violation(v, {"kind": "lucky", "case": {**cases[ci], "calls": cases[ci]["calls"][: j + 1]}}, {k: lines[i][k] for k in ("queries", "asked", "err", "out")})
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({k: v for k, v in x.items() if k != "id"})


def c22(run):
    R = run.rng
    model = list(run.printed(run.model("MCLucky", cfg=run.scale("MCLucky.cfg", "MCLuckyDeep.cfg"))))
    cases = [{"inner_kind": k, "exc": R.choice(["usual", "lookup"]), "calls": [c]} for c in model for k in ("script", "dummy")]
    check_lucky(run, cases, "all answers")
    texts = ["cat", "a cat, a mat", "x&y", "a=b", "100% wool", "#1", "q?", "a+b", "é ü", "日本", " cat ", "a\nb", "\t", " ", "", "a/b", "%20", "&q=dog", "cat&amp;", "(cat:1.1)", "{a|b}", "~!@$^*", "\\", "'\"", "0", "x" * 300]
    faults = ["ok"] * 8 + ["no-module", "refused", "status", "not-json"]
    shapes = ["prompts"] * 8 + ["no-images", "null", "number", "list", "text", "none-images", "text-images", "map-images", "no-prompt", "text-entries", "none-entries", "mixed"]
    cases = []
    for _ in range(run.scale(3000, 50000)):
        kind = R.choice(["script", "script", "dummy", "random"])
        calls = []
        for _ in range(R.randint(1, 5)):
            t = R.choice(["ok"] * 3 + faults)
            calls.append({"inner": R.choice(texts + [R.choice(texts) + R.choice(texts)]) if kind != "random" else R.choice(["cat", "x&y z", "100 wool"]),
                          "transport": t, "shape": R.choice(shapes) if t == "ok" else "prompts", "n": R.choice([0, 1, 1, 2, 3, 10, 57]),
                          "prompts": [R.choice(["p", "q q", "r, {s}", "é", "", "same", "same"]) for _ in range(R.choice([0, 1, 1, 2, 5, 40]))]})
            if calls[-1]["shape"] == "mixed" and not calls[-1]["prompts"]:
                calls[-1]["prompts"] = ["p"]
        cases.append({"inner_kind": kind, "exc": R.choice(["usual", "lookup"]), "calls": calls})
    check_lucky(run, cases, "random histories")


# ------------------------------ C25 ----------------------------------------
def stack_one(case):
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator, DummyGenerator, JinjaGenerator
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator
    from dynamicprompts.generators.promptgenerator import PromptGenerator

    calls, args, base = [], [], []

    class Spy(PromptGenerator):
        def __init__(self, inner):
            self.inner, self.level = inner, len(calls)
            calls.append([])
            args.append([])

        def generate(self, *a, **kw):
            args[self.level].append(repr((a, sorted(kw.items()))))
            try:
                res = self.inner.generate(*a, **kw)
            except Exception as ex:
                if self.level == 0:
                    base.append(pool.err(ex))
                raise
            calls[self.level].append([str(p) for p in res])
            return res

    def go(m, Magic, fresh):
        g = Spy(DummyGenerator() if case["m"] == "D" else observe.generator(case))
        for y in case["layers"]:
            if y["t"] == "attention":
                g = AttentionGenerator(g, y["lo"] / 1000, y["hi"] / 1000)
            elif y["t"] == "batched":
                g = BatchedCombinatorialPromptGenerator(g, y["n"])
            else:
                m.reply = lambda name, text, more=y["more"]: text + more
                g = Magic(g, model_name=fresh + "m")
            g = Spy(g)
        kw = {}
        if case["seeds"]:
            kw["seeds"] = case["seeds"]
        try:
            out = g.generate(case["s"], case["n"], **kw)
            e = ""
        except Exception as ex:
            out, e = [], pool.err(ex)
        return {"out": [str(p) for p in out], "err": e, "base": (base or [""])[-1], "calls": calls, "args": args, "asked": repr(((case["s"], case["n"]), sorted(kw.items())))}

    return with_model(go)


def check_stacks(run, cases):
    obs = pool.run_cases(stack_one, cases)
    none = {"out": [], "calls": [], "args": [], "asked": "", "base": ""}
    lines = [{"id": i, **{k: c[k] for k in ("s", "lib", "k", "m", "n", "layers")}, **(o if "calls" in o else {**none, "err": o["fatal"]})}
             for i, (c, o) in enumerate(zip(cases, obs))]
    run.clock("observed")
    bad = run.judge("StackTrace", lines, part="stacks")
    for i, v in sorted(bad.items())[:20]:
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "stack", "case": cases[i]}, {k: lines[i][k] for k in ("out", "err", "base", "calls", "args", "asked")})
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"template": x["s"], "layers": [y["t"] for y in x["layers"]], "out": x["out"][:4]})


def c25(run):
    R = run.rng
    shapes = list(run.printed(run.model("MCStacks", cfg=run.scale("MCStacks.cfg", "MCStacksDeep.cfg"))))
    cases = []
    for _ in range(run.scale(12, 60)):
        for sh in shapes:
            lib = gen.library(R, nested=0.2, weighted=0.1)
            s = gen.TemplateGen(R, gen.Profile(tokens=3, depth=1, odd=0.02, unknown=0.02), names=[c["n"] for c in lib]).template()
            n = R.choice([0, 1, 2, 3, 5])
            m = sh["base"]
            seeds = []
            if m == "R" and n and R.random() < 0.5:
                seeds = [R.randrange(99) for _ in range(n)]
            if not s.strip():
                s = "a {b|c}"
            layers = []
            for t in sh["layers"]:
                lo, hi = R.choice(RANGES[1:])
                more = R.choice([", sharp", " by greg", "", " - x", ", 4k!"])
                if t == "magic":  # one model for all of them
                    more = next((y["more"] for y in layers if y["t"] == "magic"), more)
                layers.append({"attention": {"t": t, "lo": lo, "hi": hi}, "batched": {"t": t, "n": R.choice([0, 1, 2, 3])}, "magic": {"t": t, "more": more}}[t])
            cases.append({"s": s, "lib": lib, "k": K, "m": m, "n": n, "seeds": seeds, "layers": layers, "seed": R.randrange(999)})
    check_stacks(run, cases)
