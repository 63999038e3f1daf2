"""Drive the public API of the library and record what it does."""
from __future__ import annotations

import itertools
import random
import signal

from pool import CaseTimeout, err


def parser_config(k):
    from dynamicprompts.parser.config import ParserConfig

    return ParserConfig(
        variant_start=k["vs"], variant_end=k["ve"], wildcard_wrap=k["ww"], variable_start=k["as"],
        variable_end=k["ae"], wrap_start=k["ps"], wrap_end=k["pe"],
    )


def manager(lib, ww="__"):
    """A wildcard manager over an in-memory library."""
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection
    from dynamicprompts.wildcards.item import WildcardItem

    coll = {}
    for c in lib:
        items = [i["s"] if i["w"] == 1000 else WildcardItem(i["s"], i["w"] / 1000) for i in c["items"]]
        if all(isinstance(i, str) for i in items):
            coll[c["n"]] = items
        else:
            coll[c["n"]] = ListWildcardCollection(entries=items)
    return WildcardManager(root_map={"": [coll]}, wildcard_wrap=ww) if coll else WildcardManager(wildcard_wrap=ww)


def method(m):
    from dynamicprompts.enums import SamplingMethod

    return {"R": SamplingMethod.RANDOM, "C": SamplingMethod.COMBINATORIAL, "Y": SamplingMethod.CYCLICAL}[m]


def context(g, wm=None):
    from dynamicprompts.parser.parse import parse
    from dynamicprompts.sampling_context import SamplingContext

    k = g["k"]
    cfg = parser_config(k)
    return SamplingContext(
        default_sampling_method=method(g["m"]),
        wildcard_manager=wm or manager(g["lib"], k["ww"]),
        ignore_whitespace=g.get("ws", False),
        parser_config=cfg,
        rand=random.Random(g.get("seed", 0)),
        variables={v["n"]: parse(v["s"], parser_config=cfg) for v in g.get("vars", [])},
        unknown_variable_value=(parse(g["unk"], parser_config=cfg) if g.get("unkc") else g["unk"]) if g.get("unk") else None,
    )


def generator(g, wm=None):
    """The generator class of a mode (None if there is none)."""
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator

    kw = {
        "wildcard_manager": wm or manager(g["lib"], g["k"]["ww"]),
        "ignore_whitespace": g.get("ws", False),
        "parser_config": parser_config(g["k"]),
    }
    if g.get("vars") or g.get("unk"):
        return None
    if g["m"] == "C":
        return CombinatorialPromptGenerator(**kw)
    if g["m"] == "R":
        return RandomPromptGenerator(seed=g.get("seed", 0), **kw)
    return None


def take(it, n):
    """Up to n prompts; an error ends the list."""
    out = []
    if n <= 0:
        return out
    try:
        for p in it:
            out.append(str(p))
            if len(out) >= n:
                break
    except Exception as e:
        out.append(err(e))
    return out


class Results:
    """What calls returned, as their caller sees it: some lists are read when
    everything is over, the others are read at once and then emptied, which
    must not matter to anyone else."""

    def __init__(self):
        self.xs = []

    def add(self, res):
        if len(self.xs) % 2:
            out = [str(p) for p in res]
            if isinstance(res, list):
                res.clear()
            self.xs.append(out)
        else:
            self.xs.append(res)

    def error(self, e):
        self.xs.append([e])

    def done(self):
        return [[str(p) for p in x] for x in self.xs]


FULL = 1200  # larger than anything the specification decides in full


def one(ctx, gen, via, s, n):
    """Prompts of one run over template s, at most n (n >= FULL: no limit)."""
    try:
        if via == "gen" and gen is not None:
            # ask for everything only if that is known to be small
            if n >= FULL and len(take(ctx.sample_prompts(s), FULL)) < FULL:
                return [str(p) for p in gen.generate(s, None)]
            return [str(p) for p in gen.generate(s, n)]
        if via == "cmd":
            from dynamicprompts.parser.parse import parse

            s = parse(s, parser_config=ctx.parser_config)
        if via == "lazy" or n >= FULL:
            return take(ctx.sample_prompts(s), n)
        return take(ctx.sample_prompts(s, n), n + 5)
    except Exception as e:
        return [err(e)]


def sample_group(g):
    """A group of runs that share one context, generator and library."""
    wm = manager(g["lib"], g["k"]["ww"])
    ctx = context(g, wm)
    gen = generator(g, wm)
    outs = []
    for r in g["runs"]:
        try:
            outs.append(one(ctx, gen, r["via"], r["s"], r["n"]))
        except CaseTimeout:  # the later runs still get their time
            outs.append(["!!Timeout"])
            signal.setitimer(signal.ITIMER_REAL, g.get("timeout", 5))
    return {"outs": outs}


def draws_group(g):
    """Independent random draws of one prompt: counts per prompt."""
    from dynamicprompts.parser.parse import parse

    wm = manager(g["lib"], g["k"]["ww"])
    ctx = context(g, wm)
    counts: dict[str, int] = {}
    total = g["draws"]
    if g["via"] == "stream":
        it = ctx.sample_prompts(g["s"], total)
    elif g["via"] == "gen":
        gen = generator(g, wm)
        it = (p for i in range(total // 50) for p in gen.generate(g["s"], 50))
    else:
        cmd = parse(g["s"], parser_config=ctx.parser_config)
        it = itertools.chain.from_iterable(ctx.sample_prompts(cmd, 1) for _ in range(total))
    try:
        for p in it:
            counts[str(p)] = counts.get(str(p), 0) + 1
    except Exception as e:
        counts[err(e)] = 1
    return {"counts": [{"s": s, "n": n} for s, n in sorted(counts.items())]}


def parse_ast(case):
    from dynamicprompts.parser.parse import parse

    from proj import BAD, proj
    try:
        c = parse(case["s"], parser_config=parser_config(case["k"]))
    except Exception:
        return {"ast": BAD}
    return {"ast": proj(c)}
