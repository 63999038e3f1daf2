"""Checks over histories of several generators and live runs (C17, C18)."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys

import gen
import observe
import pool
import sampling

K = gen.SYNTAX


# ------------------------------ C17 ----------------------------------------
def disturb(o):
    """Other users of randomness."""
    from dynamicprompts.constants import DEFAULT_RANDOM
    from dynamicprompts.generators import RandomPromptGenerator

    random.seed(o.get("k", 9))
    DEFAULT_RANDOM.seed(o.get("k", 9))
    for _ in range(o.get("k", 9) % 4):
        random.random()
        DEFAULT_RANDOM.random()
    RandomPromptGenerator(seed=3).generate("{a|b|c} {2$$d|e|f}", 2)
    RandomPromptGenerator(seed=5, unlink_seed_from_prompt=True).generate("{a|b|c}", 1)
    RandomPromptGenerator().generate("{a|b|c}", 2, seeds=[1, 2])


def seeds_one(case):
    """Run the histories of a case; returns them with what was generated."""
    from dynamicprompts.generators import RandomPromptGenerator

    wm = observe.manager(case["lib"])
    res = []
    for h in case["hs"]:
        gens, done, lists = {}, [], {}
        for o in h:
            o = dict(o)
            if o["op"] == "new":
                gens[o["g"]] = RandomPromptGenerator(
                    wm, seed=o["seed"] if o["seed"] >= 0 else None, unlink_seed_from_prompt=not o["linked"])
            elif o["op"] == "call":
                kw = {}
                if o["seeds"]:
                    # a caller may keep its list and use it again
                    kw["seeds"] = o["seeds"][0] if o.get("bare") else lists.setdefault(tuple(o["seeds"]), list(o["seeds"]))
                elif o.get("bare"):
                    kw["seeds"] = []  # none
                try:
                    out = gens[o["g"]].generate(case["ts"][o["t"] - 1], o["n"], **kw)
                    o["out"] = [str(p) for p in out]
                except Exception as e:
                    o["out"] = [pool.err(e)]
            else:
                disturb(o)
            done.append(o)
        res.append(done)
    return {"hs": res}


def free_one(_):
    """Prompts that must not repeat: an unlinked generator does not follow its
    seed, and neither kind starts at a fixed place."""
    from dynamicprompts.generators import RandomPromptGenerator

    big = " ".join("{" + "|".join(f"{c}{i}" for i in range(16)) + "}" for c in "abcdefghijklmnopqrstuv")
    out = []
    for kw in ({"seed": 3, "unlink_seed_from_prompt": True}, {"seed": 3, "unlink_seed_from_prompt": True}, {}, {},
               {"unlink_seed_from_prompt": True}):
        out.append(RandomPromptGenerator(**kw).generate(big, 3))
    return {"free": out}


def elsewhere(cases):
    """seeds_one in other processes, with another hash seed and history."""
    n = pool.NPROC
    ps = []
    for i in range(n):
        env = {**os.environ, "PYTHONHASHSEED": str(41 + i), "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.Popen([sys.executable, __file__], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, encoding="utf-8")
        ps.append((p, cases[i::n]))
    import concurrent.futures as cf

    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda x: x[0].communicate(json.dumps(x[1]))[0], ps))
    res = [None] * len(cases)
    for i, o in enumerate(outs):
        res[i::n] = json.loads(o) if o.strip() else [{"fatal": "!!Killed"}] * len(cases[i::n])
    return res


def lost(run, part, obs, key):
    """Some of the cases that gave no result, to be tried again: a busy
    machine is not a violation."""
    res = [i for i, o in enumerate(obs) if "fatal" in o or key not in o]
    if res:
        run.count(part, lost=len(res))
    if len(res) <= 5 + len(obs) // 20:  # a few templates are too large for this
        res = [i for i in res if obs[i].get("fatal") not in sampling.RESOURCE]
    return res[:3]


def check_seeds(run, cases, part):
    """Every other history of a case runs in another process."""
    here = [{**c, "hs": c["hs"][::2]} for c in cases]
    there = [{**c, "hs": c["hs"][1::2]} for c in cases]
    a, b = pool.run_cases(seeds_one, here, timeout=30), elsewhere(there)
    lines = []
    for i in lost(run, part, [{**x, **y} for x, y in zip(a, b)], "hs"):
        y = pool.run_cases(seeds_one, [cases[i]], timeout=120)[0]
        if "hs" not in y:
            run.violation("no-answer", {"kind": "seeds", "case": cases[i]}, y)
    for i, (c, x, y) in enumerate(zip(cases, a, b)):
        if "fatal" in x or "fatal" in y:
            continue
        hs = [None] * len(c["hs"])
        hs[::2], hs[1::2] = x["hs"], y["hs"]
        for h in hs:
            for o in h:
                o.pop("bare", None)
        lines.append({"id": i, "lib": c["lib"], "ts": c["ts"], "total": c["total"], "hs": hs, "free": []})
    run.clock(f"{part}: observed")
    bad = run.judge("SeedTrace", lines, part=part)
    run.clock(f"{part}: judged")
    by = {x["id"]: x for x in lines}
    for i, v in sorted(bad.items())[:20]:
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "seeds", "case": cases[i]}, by[i]["hs"])
    for x in lines[:: max(1, len(lines) // 2)]:
        run.sample({"templates": x["ts"], "history": [o for o in x["hs"][0]]})


LIB = [{"n": "c", "items": [{"s": w, "w": 1000} for w in ("one", "two", "three", "four", "five")]},
       {"n": "w", "items": [{"s": "p", "w": 3000}, {"s": "{q|r}", "w": 1000}, {"s": "s", "w": 500}]}]
# the first of each pair is free of parts decided earlier, the second is not
PAIRS = [
    ("{a|b|c} x {d|e|f}", "{a|b|c} {@x|y}"),
    ("__c__ {2$$ $$a|b|c}", "${v=!{a|b|c}}${v} {d|e|f|g}"),
    ("__c__ __c__", "__@c__ {a|b|c|d}"),
    ("__w__ and __w__", "${u=!__c__}${u} __c__"),
    ("{2$$__c__}", "{1-2$$a|b|__c__} {@1-2$$p|q}"),
    ("{3::a|b|0.5::{c|d}} {1-2$$, $$__c__|z|y}", "__{c|w}__ __c__"),
    ("${v={a|b|c|d}}${v}-${v}", "${v={@a|b|c}}${v} {a|b|c|d}"),
    ("%{{a|b}...{c|d}$$__c__}", "%{{@a|b}...{c|d}$$__c__}"),
]


def model_cases(run, pairs):
    """The histories of the model, for each pair of templates."""
    cfg = run.scale("MCSeeds.cfg", "MCSeedsDeep.cfg")
    hs = []
    for h in run.printed(run.model("MCSeeds", cfg=cfg)):
        hs.append([{"op": "new", "g": 1, "seed": 3, "linked": True}, {"op": "new", "g": 2, "seed": 3, "linked": False}] + h)
    cases = []
    R = run.rng
    for ts in pairs:
        # neighbours share their beginning; in the second half they do not
        order = sorted(hs, key=json.dumps)
        R.shuffle(hs)
        for xs in (order, hs[: len(hs) // 2]):
            for i in range(0, len(xs), 24):
                chunk = [[dict(o) for o in h] for h in xs[i:i + 24]]
                for h in chunk:
                    for o in h:
                        if o["op"] == "call" and len(o["seeds"]) < 2 and R.random() < 0.3:
                            o["bare"] = True
                cases.append({"lib": LIB, "ts": list(ts), "total": True, "hs": chunk})
    return cases


def check_free(run, free):
    lines = [{"id": i, "lib": [], "ts": [], "total": True, "hs": [], "free": x.get("free", [["!!"], ["!!"]])} for i, x in enumerate(free)]
    for i, v in run.judge("SeedTrace", lines, part="unlinked").items():
        run.violation(v, {"kind": "free"}, lines[i]["free"])


def c17(run):
    R = run.rng
    free = pool.run_cases(free_one, range(run.scale(40, 400)))
    check_free(run, free)
    pairs = run.scale(R.sample(PAIRS, 3), PAIRS)
    check_seeds(run, model_cases(run, pairs), "model histories")
    # templates, libraries and histories at random
    cases = []
    for _ in range(run.scale(500, 8000)):
        lib = gen.library(R, size=R.randint(1, 3), values=4, nested=0.25, variables=0.1, weighted=0.3, symbols=0.15)
        prof = gen.Profile(get=1, set=1, wrap=0.7, symbols=R.choice([0, 0, 0.2]), params=0.2, computed=R.choice([0, 0.1]), unknown=0.02,
                           weights=0.2, spaces=0.02)
        tg = gen.TemplateGen(R, prof, names=[c["n"] for c in lib])
        ts = [tg.template() for _ in range(R.randint(1, 3))]
        protos = []
        for _ in range(R.randint(1, 3)):
            seeds, used = R.sample(range(50), 3), {}
            h = [{"op": "new", "g": g + 1, "seed": R.choice([3, 4, -1, 0]), "linked": R.random() < 0.75} for g in range(R.randint(1, 3))]
            ng = len(h)
            for _ in range(R.randint(1, 6)):
                x = R.random()
                if x < 0.2:
                    h.append({"op": "other", "k": R.randrange(9)})
                elif x < 0.25:
                    h.append({"op": "new", "g": R.randint(1, ng), "seed": R.choice([3, 4]), "linked": True})
                else:
                    n = R.randint(0, 4) if R.random() < 0.9 else R.randint(8, 30)
                    o = {"op": "call", "g": R.randint(1, ng), "t": R.randint(1, len(ts)), "n": n, "seeds": []}
                    y = R.random()
                    if y < 0.35:
                        o["seeds"] = [R.choice(seeds) for _ in range(n)]
                        if R.random() < 0.5:  # the same list as before
                            o["seeds"] = used.setdefault(n, o["seeds"])
                    elif y < 0.5:
                        o["seeds"] = [R.choice(seeds)]
                        o["bare"] = R.random() < 0.5
                    elif y < 0.57:
                        o["seeds"] = [R.choice(seeds) for _ in range(R.randint(2, 5))]
                    if any(not ts[t - 1].strip() for t in [o["t"]]):
                        o["seeds"] = []
                    h.append(o)
            protos.append(h)
        hs = []
        for h in protos:  # again, with other things going on in between
            hs.append(h)
            k = []
            for o in h:
                if R.random() < 0.3:
                    k.append({"op": "other", "k": R.randrange(9)})
                k.append(o)
            hs.append(k)
        cases.append({"lib": lib, "ts": ts, "total": False, "hs": hs})
    check_seeds(run, cases, "random histories")


# ------------------------------ C18 ----------------------------------------
def describe(wm, ctxs, cmds, names):
    """The shared objects, as text."""
    from proj import proj

    return json.dumps([
        [proj(c) for c in cmds],
        [[c.default_sampling_method.name, c.ignore_whitespace, str(c.unknown_variable_value), sorted(c._variables_being_sampled),
          sorted((n, proj(v)) for n, v in c.variables.items()) if c.variables else []] for c in ctxs],
        [[n, [[str(i), round(getattr(i, "weight", 1) * 1000)] for i in wm.get_values(n)], list(wm.get_values(n).string_values)] for n in names],
        sorted(wm.get_collection_names()),
    ], default=str)


def setting(case):
    from dynamicprompts.parser.parse import parse

    wm = observe.manager(case["lib"])
    ctxs = []
    for c in case["ctxs"]:
        c = {**c, "k": K, "lib": case["lib"], "seed": 1}
        if c.get("like") is not None:  # made from an earlier one
            ctxs.append(ctxs[c["like"]].with_sampling_method(observe.method(c["m"])))
        else:
            ctxs.append(observe.context(c, wm))
    cmds = []
    for t in case["ts"]:
        try:
            cmds.append(parse(t))
        except Exception:
            cmds.append(None)
    return wm, ctxs, cmds


def start(case, ctxs, cmds, r):
    """Open a run: an iterator, not yet pulled from."""
    import dataclasses

    ctx = ctxs[r["c"] - 1]
    if r["exact"]:
        ctx = dataclasses.replace(ctx, rand=random.Random(r["seed"]))
    t = cmds[r["t"] - 1] if r["cmd"] else None
    return iter(ctx.sample_prompts(case["ts"][r["t"] - 1] if t is None else t, *([r["cap"]] if r["cap"] else [])))


def pull(live):
    """One more prompt of a run; errors end it."""
    if live["over"]:
        return
    live["n"] += 1
    try:
        live["out"].append(str(next(live["it"])))
    except StopIteration:
        live["over"] = True
    except Exception as e:
        live["out"].append(pool.err(e))
        live["over"] = True


def alone(case, r, n):
    """The same run from fresh objects."""
    try:
        wm, ctxs, cmds = setting(case)
        return observe.take(start(case, ctxs, cmds, r), n)
    except Exception as e:
        return [pool.err(e)]


def session_one(case):
    wm, ctxs, cmds = setting(case)
    names = [c["n"] for c in case["lib"]]
    some = [c for c in cmds if c is not None]
    before = describe(wm, ctxs, some, names)
    gens = []
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator

    gens = [CombinatorialPromptGenerator(wm), RandomPromptGenerator(wm, seed=2)]
    slots, done, calls = {}, [], 0
    first = {}
    if case["first"]:  # what they do alone, before or after
        first = {k: alone(case, r, 6) for k, r in enumerate(case["slots"])}
    for o in case["h"]:
        if o["op"] == "open":
            r = case["slots"][o["s"] - 1]
            live = {"r": r, "k": o["s"] - 1, "n": 0, "out": [], "over": False}
            try:
                live["it"] = start(case, ctxs, cmds, r)
            except Exception as e:
                live.update(over=True, n=1, out=[pool.err(e)])
            slots[o["s"]] = live
            done.append(live)
        elif o["op"] == "pull":
            pull(slots[o["s"]])
        elif o["op"] == "close":
            x = slots.pop(o["s"])
            if case["drop"] and hasattr(x.get("it"), "close"):
                x["it"].close()
            x["it"] = None
        else:
            calls += 1
            try:
                gens[calls % 2].generate(case["ts"][calls % len(case["ts"])], 3)
            except Exception:
                pass
    runs = []
    for x in done:
        r = x["r"]
        n = min(x["n"], r["cap"]) if r["cap"] else x["n"]
        solo = first[x["k"]][: x["n"]] if case["first"] and x["n"] <= 6 else alone(case, r, x["n"])
        runs.append({"s": case["ts"][r["t"] - 1], "c": r["c"], "n": n, "out": x["out"], "solo": solo, "exact": r["exact"]})
    return {"runs": runs, "before": before, "after": describe(wm, ctxs, some, names)}


def check_sessions(run, cases, part):
    obs = pool.run_cases(session_one, cases, timeout=20)
    lines = []
    for i in lost(run, part, obs, "runs"):
        obs[i] = pool.run_cases(session_one, [cases[i]], timeout=120)[0]
        if "runs" not in obs[i]:
            run.violation("no-answer", {"kind": "session", "case": cases[i]}, obs[i])
    for i, (c, o) in enumerate(zip(cases, obs)):
        if "runs" in o:
            lines.append({"id": i, "lib": c["lib"], "ctxs": [{k: x[k] for k in ("m", "ws", "unk", "vars")} for x in c["ctxs"]], **o})
    run.clock(f"{part}: observed")
    bad = run.judge("SessionTrace", lines, part=part)
    run.clock(f"{part}: judged")
    by = {x["id"]: x for x in lines}
    for i, v in sorted(bad.items())[:20]:
        if v not in ("skip", "unjudged"):
            run.violation(v, {"kind": "session", "case": cases[i]}, {k: x for k, x in by[i].items() if k not in ("id", "lib", "ctxs")})
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample([{k: r[k] for k in ("s", "out")} for r in x["runs"]])


def random_setting(R, slots):
    lib = gen.library(R, size=R.randint(1, 3), values=3, nested=0.35, variables=0.15, weighted=0.2, symbols=0.3)
    prof = gen.Profile(get=1, set=1, wrap=0.7, symbols=R.choice([0, 0.25, 0.5]), params=0.25, computed=R.choice([0, 0.1]), unknown=0.05,
                       undefined=0.1, spaces=0.02)
    tg = gen.TemplateGen(R, prof, names=[c["n"] for c in lib])
    ts = [tg.template() for _ in range(R.randint(1, slots))]
    if R.random() < 0.1:
        ts.append(R.choice(["${x=${y}}${y=${x}}${x}", "{0::a|0::b}", "{a", "${nope}", "__c(u=${u})__", "${u=${u}}${u}"]))
    ctxs = []
    for _ in range(R.randint(1, 2)):
        ctxs.append({"m": R.choice("CCYYR"), "ws": R.random() < 0.1, "unk": R.choice(["", "", "U"]),
                     "vars": [{"n": v, "s": R.choice(["k", "{k|l}", "{@k|l}"])} for v in R.sample(gen.VARS, R.randint(0, 2))]})
    if R.random() < 0.4:
        c = R.randrange(len(ctxs))
        ctxs.append({**ctxs[c], "m": R.choice("CYR"), "like": c})
    sl = []
    same = R.random() < 0.4  # the same template in every slot
    for i in range(slots):
        sl.append({"t": 1 if same else R.randint(1, len(ts)), "c": R.randint(1, len(ctxs)), "cmd": R.random() < 0.6,
                   "exact": R.random() < 0.8, "seed": R.randrange(100), "cap": R.choice([0, 0, 0, 2, 3])})
    return {"lib": lib, "ts": ts, "ctxs": ctxs, "slots": sl, "first": R.random() < 0.5, "drop": R.random() < 0.5}


def c18(run):
    R = run.rng
    out = run.model("MCSessions", cfg=run.scale("MCSessions.cfg", "MCSessionsDeep.cfg"))
    scheds = list(run.printed(out))
    cases = []
    for h in scheds * run.scale(4, 2):  # every schedule, each on other templates
        cases.append({**random_setting(R, 3), "h": h})
    check_sessions(run, cases, "all short schedules")
    cases = []
    for _ in range(run.scale(1500, 30000)):
        k = R.randint(2, 6)
        h, live = [], set()
        for _ in range(R.randint(8, 40)):
            s = R.randint(1, k)
            if R.random() < 0.06:
                h.append({"op": "call", "s": 0})
            elif s not in live:
                live.add(s)
                h.append({"op": "open", "s": s})
            elif R.random() < 0.12:
                live.discard(s)
                h.append({"op": "close", "s": s})
            else:
                h.append({"op": "pull", "s": s})
        cases.append({**random_setting(R, k), "h": h})
    check_sessions(run, cases, "long schedules")


if __name__ == "__main__":  # a worker of elsewhere()
    sys.dont_write_bytecode = True
    import logging
    import tempfile
    import warnings

    import core

    cache = tempfile.mkdtemp(prefix="verif-pyc-")
    sys.pycache_prefix = cache
    core.use_repo()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    res = [pool.guarded(seeds_one, c, 60) for c in json.load(sys.stdin)]
    sys.stdout.write(json.dumps(res))
    import shutil

    shutil.rmtree(cache, ignore_errors=True)
