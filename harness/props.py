"""The check of each property."""
from __future__ import annotations

import json

import library
import others
import parsing
import sampling
import sessions

CHECKS = {
    "C01": sampling.c01, "C02": sampling.c02, "C03": sampling.c03, "C04": sampling.c04, "C05": sampling.c05,
    "C06": sampling.c06, "C07": sampling.c07, "C08": sampling.c08, "C09": sampling.c09, "C10": sampling.c10,
    "C11": library.c11, "C12": library.c12, "C13": library.c13,
    "C24": library.c24,
    "C14": parsing.c14, "C15": sampling.c15, "C16": sampling.c16,
    "C17": sessions.c17, "C18": sessions.c18,
    "C19": others.c19, "C20": others.c20, "C21": others.c21, "C22": others.c22, "C23": others.c23,
    "C25": others.c25, "C26": parsing.c26,
}


def replay(path):
    """Observe a recorded case again and judge it again."""
    import core
    import pool

    rec = json.load(open(path, encoding="utf-8"))
    c = dict(rec["case"])
    kind = c.pop("kind")
    run = core.Run(rec["property"], "quick", 1)
    if kind == "sample":
        sampling.check_groups(run, [c["group"]], part="replay", timeout=c["group"].get("timeout", 5), module=c["module"])
    elif kind == "free":
        sessions.check_free(run, pool.run_cases(sessions.free_one, range(40)))
    else:
        {
            "batched": lambda: sampling.check_batched(run, [c]),
            "draws": lambda: sampling.judge_draws(run, [c], "replay"),
            "joint": lambda: sampling.check_joint(run, [c], "replay"),
            "parse": lambda: parsing.check(run, [c], "replay"),
            "resolve": lambda: library.check_references(run, [c]),
            "load": lambda: library.check_loading(run, [c]),
            "history": lambda: library.check_histories(run, [c], "replay"),
            "hierarchy": lambda: library.check_hierarchies(run, [c], "replay"),
            "seeds": lambda: sessions.check_seeds(run, [c["case"]], "replay"),
            "session": lambda: sessions.check_sessions(run, [c["case"]], "replay"),
            "jinja": lambda: others.check_jinja(run, [c["case"]], "replay", many=c["many"]),
            "attention": lambda: others.check_attention(run, [c["case"]], "replay"),
            "magic": lambda: others.check_magic(run, [c["case"]], "replay"),
            "models": lambda: others.check_models(run, [c["case"]]),
            "tree": lambda: parsing.check_trees(run, [c], "replay"),
            "stack": lambda: others.check_stacks(run, [c["case"]]),
            "lucky": lambda: others.check_lucky(run, [c["case"]], "replay"),
        }[kind]()
    core.shutil.rmtree(run.work, ignore_errors=True)
    for v in run.violations:
        print(f"VIOLATION property={run.pid} replay={path}")
        print(f"  {v['what']}")
        print(f"  observed {json.dumps(v['observed'], default=str)[:2000]}")
    print(f"{path}: {'reproduced' if run.violations else 'not reproduced'}")
    return 1 if run.violations else 0
