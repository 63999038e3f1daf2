"""Checks of the wildcard library: reference resolution (C11), loading (C12)
and the manager's answers under histories of operations (C13)."""
from __future__ import annotations

import json
import logging
import os
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import gen
import observe
import pool
import sampling

SCRATCH = None  # set by the check before the workers start


def scratch():
    return tempfile.mkdtemp(prefix="lib-", dir=SCRATCH)


def item(v):
    w = getattr(v, "weight", 1)
    return {"s": str(v), "w": round(w * 1000)}


def items(vs):
    return [item(v) for v in vs]


def judge(run, module, cases, lines, part, kind):
    bad = 0
    for i, v in sorted(run.judge(module, lines, part=part).items()):
        if v in ("skip", "unjudged"):
            continue
        bad += 1
        if bad <= 20:
            run.violation(v, {"kind": kind, **cases[i]}, {k: x for k, x in lines[i].items() if k not in cases[i]})


# ------------------------------ C11 ----------------------------------------
PARTS = ["a", "b", "ab", "aa", "A", "c-d", "c.d", "x y", "[z]", "d", "1", "_u", "é", "a..b", "AB", "d.."]


def names(R, n):
    out = []
    while len(out) < n:
        x = "/".join(R.choice(PARTS) for _ in range(R.choice([1, 1, 2, 2, 3])))
        if x not in out:
            out.append(x)
    return out


def reference(R, ns, ww):
    s = R.choice(ns) if R.random() < 0.9 else "/".join(R.choice(PARTS) for _ in range(2))
    for _ in range(R.choice([0, 0, 1, 1, 2])):
        kind = R.random()
        i = R.randrange(len(s)) if s else 0
        if kind < 0.25:
            s = s[:i] + "*" + s[min(len(s), i + R.randint(0, 3)):]
        elif kind < 0.4:
            s = s[:i] + "?" + s[i + 1:]
        elif kind < 0.55:
            s = s[:i] + R.choice(["[a-c]", "[!a]", "[ab]", "[]a]", "[!b-d]", "[a", "[a-]", "[d-a]"]) + s[i + 1:]
        elif kind < 0.7:
            s = s.split("/", 1)[-1]
        elif kind < 0.8:
            s = R.choice(["*/", "**/", "**", "*"]) + s
        elif kind < 0.9:
            s = s.rsplit("/", 1)[0] + R.choice(["/*", "/**", "*", ""])
        else:
            s = s.replace("/", R.choice(["//", "\\", "/\\", "\\\\", "/../", "/./"]), 1)
    if R.random() < 0.15:
        s = R.choice(["/", "\\", "../", "//", "./", "/../", "..\\"]) + s
    if R.random() < 0.1:
        s += R.choice(["/", "\\", "/..", ".txt", "..", " "])
    x = R.random()
    if x < 0.3:
        s = ww + s + ww
    elif x < 0.4:
        s = R.choice([ww + s, s + ww, ww + ww + s + ww])
    return s


def resolve_one(case):
    from dynamicprompts.wildcards import WildcardManager

    lib, tmp = case["lib"], None
    try:
        if case["disk"]:
            tmp = scratch()
            root = Path(tmp) / "in" / "root"
            root.mkdir(parents=True)
            for d in (Path(tmp), root.parent):  # what no reference may reach
                for n in ("a", "b", "outside"):
                    (d / f"{n}.txt").write_text(f"secret {n}\n")
            for c in lib:
                f = root / (c["n"] + ".txt")
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_text("".join(i["s"] + "\n" for i in c["items"]), encoding="utf-8")
            wm = WildcardManager(root, case["ww"])
        else:
            wm = observe.manager(lib, case["ww"])
        wm.sort_wildcards, wm.dedup_wildcards = case["sort"], case["dedup"]
        res = []
        for ref in case["refs"]:
            ref = ref.replace("<tmp>", str(tmp))
            r = {"ref": ref, "values": items(wm.get_values(ref))}
            r["matched"] = [items(c.get_values()) for c in wm.match_collections(ref)]
            try:
                r["file"] = [items(wm.get_file(ref).get_values())]
            except (KeyError, ValueError):
                r["file"] = []
            r["wrapped"], r["is"] = wm.to_wildcard(ref), wm.is_wildcard(ref)
            res.append(r)
        return {"res": res}
    finally:
        if tmp:
            shutil.rmtree(tmp)


def check_references(run, cases):
    global SCRATCH
    SCRATCH = run.work
    obs = pool.run_cases(resolve_one, cases)
    flat, lines = [], []
    for c, o in zip(cases, obs):
        base = {k: c[k] for k in ("lib", "ww", "disk", "sort", "dedup")}
        if "res" not in o:
            flat.append({**base, "refs": c["refs"]})
            lines.append({"id": len(lines), **base, "ref": c["refs"][0], "values": [{"s": o["fatal"], "w": 0}], "matched": [], "file": [],
                          "wrapped": "", "is": False})
            continue
        for r in o["res"]:
            flat.append({**base, "refs": [re.sub(r"^.*/lib-[^/]*", "<tmp>", r["ref"]) if c["disk"] else r["ref"]]})
            lines.append({"id": len(lines), **base, **r})
    run.clock("resolved")
    judge(run, "ResolveTrace", flat, lines, "references", "resolve")
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"reference": x["ref"], "names": [c["n"] for c in x["lib"]], "values": x["values"][:5]})


def c11(run):
    R = run.rng
    cases = []
    for _ in range(run.scale(3000, 30000)):
        disk = R.random() < 0.4
        ww = R.choice(["__", "__", "++", "%%", "~"])
        ns = names(R, R.randint(1, 6))
        lib = []
        for n in ns:
            vals = R.sample(["r", "s", "t", "u", "v w", "x,y", "B", "a"], R.randint(0, 3))
            if R.random() < 0.2 and vals:
                vals.append(vals[0])
            lib.append({"n": n, "items": [{"s": v, "w": 1000 if disk or R.random() < 0.9 else 2000} for v in vals]})
        refs = [reference(R, ns, ww) for _ in range(5)]
        if disk and R.random() < 0.5:
            refs.append(R.choice(["../outside", "..", "../*", "<tmp>/outside", "a/../../outside", "**/outside", "*outside*",
                                  "..\\outside", "/../outside", "./../b", "<tmp>/in/root/a"]))
        cases.append({"lib": lib, "ww": ww, "disk": disk, "sort": R.random() < 0.7, "dedup": R.random() < 0.7, "refs": refs})
    check_references(run, cases)
    # in prompts, in every mode
    groups = []
    for _ in range(run.scale(2000, 20000)):
        ns = names(R, R.randint(1, 5))
        lib = [{"n": n, "items": [{"s": v, "w": 1000} for v in R.sample(["r", "s", "t", "u", "v w"], R.randint(0, 2))]} for n in ns]
        g = {"lib": lib, "m": R.choice("CRY"), "k": gen.SYNTAX, "ws": False, "seed": R.randrange(9999), "runs": []}
        for _ in range(2):
            ref = reference(R, ns, "zz")
            if any(x in ref for x in ("__", "zz")) or not ref.strip():
                continue
            if R.random() < 0.2:  # known or not: only the name that was looked up may come back
                ref = "{" + R.choice(["", "@", "~"]) + R.choice([f"{R.choice(ns)}|nope", f"nope|no/pe|{R.choice(ns)}", "nope|no/pe"]) + "}"
            s = R.choice(["__%s__", "p __%s__ q", "{__%s__}", "{2$$__%s__}", "{__%s__|k}"]) % ref
            g["runs"].append({"s": s, "n": R.choice([1, 3, sampling.FULL if g["m"] == "C" else 4]), "via": R.choice(sampling.VIAS)})
        if g["runs"]:
            groups.append(g)
    sampling.check_groups(run, groups, part="references in prompts")


# ------------------------------ C12 ----------------------------------------
WORDS = ["red", "a b", "x", "Blue", "1", "2::3", "7::w", "0.5::half", "3::", "::", "q::z", "1.25::v::u", " pad ", "#no", "é", "{a|b}",
         "__c__", "x: y", "- d", "12::t", "9::y z", "1::one", "[k]", "true", "null", "0", "10:: sp"]
BROKEN = {
    ".json": ["{", "[1, 2", "{'a': ['b']}", "{\"a\": [\"b\"],}", "", "\xff\xfe", "nonsense", "{\"a\": undefined}"],
    ".yaml": ["a: [b", "a: b: c", "{a: [b}", "a:\n  - x\n - y\n", "\t- a\n\tb: c", "%x\n---\n", "!!python/object:os.system {}", "&a [*b]",
              "? [a, b]\n: [c]\n"],
}


class Files:
    def __init__(self, R):
        self.r = R

    def text(self):
        R = self.r
        out = ""
        for _ in range(R.randint(0, 6)):
            line = R.choice(["", "", "", "  ", "\t", "\u00a0", "\ufeff" if R.random() < 0.1 else ""]) + R.choice(["red", "a b", "# note", "#x", "", "x # y", "2::w", "{a|b}", "  ", "red", "é", "-"])
            out += line + R.choice(["", "", " ", "\t ", "\u00a0", "\x0c", "\u3000 "]) + R.choice(["\n", "\n", "\n", "\r\n", "\r", "\n\n"])
        return out.rstrip("\n") if R.random() < 0.3 else out

    def scalar(self):
        R = self.r
        return R.choice(WORDS) if R.random() < 0.75 else R.choice([0, 1, 2.5, True, False, None, -3, ""])

    def entry(self):
        R = self.r
        x = R.random()
        if x < 0.7:
            return self.scalar()
        if x < 0.9:
            d = {}
            d[R.choice(["text", "content", "text", "txt"])] = R.choice(["foo", "bar baz", "", 3, None, ["q"], "w"])
            if R.random() < 0.2:
                d["content"] = "other"
            if R.random() < 0.6:
                d["weight"] = R.choice([2, 0.5, 1, 1.0, "3", "x", None, [1], 0, {"a": 1}, "1.5"])
            return d
        return R.choice([[], ["n"], {}, {"k": ["v"]}, [["x"]]])

    def value(self, depth):
        R = self.r
        x = R.random()
        if x < 0.55:
            return [self.entry() for _ in range(R.randint(0, 5))]
        if x < 0.65:
            return self.scalar()
        if depth <= 0:
            return ["leaf"]
        return self.tree(depth - 1)

    def tree(self, depth, yaml=False):
        R = self.r
        keys = R.sample(["k", "l", "m", "Kx", "a-b", "x y", "n/o", "k/l", "é"], R.randint(0, 4))
        d = {k: self.value(depth) for k in keys}
        if self.yaml and R.random() < 0.15:
            d[R.choice([1, 2.5, True])] = ["under a number"]
        return d

    def file(self, i, dirs):
        R = self.r
        d = R.choice(dirs)
        ext = R.choice([".txt"] * 4 + [".json"] * 3 + [".yaml"] * 3 + [".yml", ".md", ".TXT", ".txt.bak", ""])
        # names differ from file to file, so that none replaces another
        stem = f"{R.choice(['f', 'g.h', 'F-', 'n m', 'x.txt'])}{i}"
        self.yaml = ext == ".yaml"
        if ext not in (".json", ".yaml"):
            f = {"dir": d, "stem": stem, "ext": ext, "text": self.text()}
            if R.random() < 0.12:
                f["junk"] = [R.randint(0, len(f["text"])), R.choice([0xff, 0xfe, 0x80, 0xc0])]
            return f
        if R.random() < 0.2:
            return {"dir": d, "stem": stem, "ext": ext, "broken": R.choice(BROKEN[ext])}
        x = R.random()
        if x < 0.75:
            data = {f"{k}{i}" if isinstance(k, str) else k: v for k, v in self.tree(2).items()}
        elif x < 0.95:
            data = [self.entry() for _ in range(R.randint(0, 5))]
        else:
            data = self.scalar()
        return {"dir": d, "stem": stem, "ext": ext, "data": data, "style": R.randint(0, 3)}


def tag(d):
    """Data as the specification sees it."""
    if isinstance(d, str):
        return {"t": "s", "s": d}
    if isinstance(d, list):
        return {"t": "l", "xs": [tag(x) for x in d]}
    if isinstance(d, dict):
        return {"t": "d", "kv": [{"str": isinstance(k, str), "k": str(k), "v": tag(v)} for k, v in d.items()]}
    if d is None:
        return {"t": "nil"}
    return {"t": "n", "num": round(float(d) * 1000)}


def write(root, f):
    p = Path(root).joinpath(*f["dir"])
    p.mkdir(parents=True, exist_ok=True)
    p = p / (f["stem"] + f["ext"])
    if "text" in f:
        data = f["text"].encode("utf-8")
        if "junk" in f:  # bytes that are no text, between characters
            i, j = f["junk"]
            i = len(f["text"][:i].encode("utf-8"))
            data = data[:i] + bytes([j]) + data[i:]
        p.write_bytes(data)
    elif "broken" in f:
        p.write_bytes(f["broken"].encode("latin-1"))
    elif f["ext"] == ".json":
        p.write_text(json.dumps(f["data"], ensure_ascii=f["style"] % 2 == 0, indent=2 if f["style"] > 1 else None), encoding="utf-8")
    else:
        import yaml

        p.write_text(yaml.safe_dump(f["data"], allow_unicode=True, sort_keys=False, default_flow_style=[None, True, False, None][f["style"]]),
                     encoding="utf-8")
    return p


def load_one(case):
    from dynamicprompts.wildcards import WildcardManager

    tmp = scratch()
    try:
        root_map, i = {}, 0
        for r in case["roots"]:
            if "files" in r:
                root = Path(tmp) / f"root{i}"
                root.mkdir()
                i += 1
                for f in r["files"]:
                    write(root, f)
                if case.get("links"):  # top-level directories are links
                    for d in [d for d in sorted(root.iterdir()) if d.is_dir()]:
                        real = Path(tmp) / f"real{i}-{d.name}"
                        d.rename(real)
                        d.symlink_to(real)
                root_map.setdefault(r["prefix"], []).append(root)
            else:
                root_map.setdefault(r["prefix"], []).append({c["n"]: [x["s"] for x in c["items"]] for c in r["colls"]})
        if case["single"]:
            wm = WildcardManager(str(root) if case["single"] == "str" else root)
        else:
            wm = WildcardManager(root_map=root_map)
        try:
            ns = sorted(wm.get_collection_names())
            colls = [{"n": n, "items": items(wm.get_file(n).get_values()), "looked": items(wm.get_values(n))} for n in ns]
            # names with pattern characters or slashes at the ends do not denote themselves
            for c in colls:
                if re.search(r"[*?\[\\]|__|//|\.\.", c["n"]):
                    c["looked"] = None
            return {"names": ns, "colls": colls, "error": ""}
        except Exception as e:
            return {"names": [], "colls": [], "error": repr(e)[:200]}
    finally:
        shutil.rmtree(tmp)


def spec_roots(roots):
    out = []
    for r in roots:
        if "files" in r:
            fs = []
            for f in r["files"]:
                body = ({"t": "text", "s": f["text"]} if "text" in f else {"t": "broken"} if "broken" in f else tag(f["data"]))
                fs.append({"dir": f["dir"], "stem": f["stem"], "ext": f["ext"], "body": body})
            out.append({"prefix": r["prefix"], "files": fs})
        else:
            out.append({"prefix": r["prefix"], "colls": r["colls"]})
    return out


def load_lines(cases, obs):
    lines = []
    for i, (c, o) in enumerate(zip(cases, obs)):
        o = o if "names" in o else {"names": [], "colls": [], "error": o["fatal"]}
        for x in o["colls"]:
            if x["looked"] is None:  # nothing to compare
                x["looked"] = arranged(x["items"])
        lines.append({"id": i, "roots": spec_roots(c["roots"]), **o})
    return lines


def arranged(xs):
    return sorted([x for i, x in enumerate(xs) if x not in xs[:i]], key=lambda x: x["s"])


def c12(run):
    R = run.rng
    cases = []
    for i in range(run.scale(6000, 50000)):
        fg = Files(R)
        dirs = R.choice([[[]], [[], ["d"]], [[], ["d"], ["d", "e"]], [[], [".h"], ["d", ".g", "x"], ["d.txt"]], [["p q", "r"]], [["_p"], ["d", "_", "__q"]], [["~s"], ["-t"], ["X"]]])
        links = R.random() < 0.15
        roots = [{"prefix": "", "files": [fg.file(j, dirs) for j in range(R.randint(1, 5))]}]
        single = R.choice(["", "", "path", "str"])
        if not single and R.random() < 0.5:
            roots[0]["prefix"] = R.choice(["", "pre", "pre/fix"])
            if R.random() < 0.5:
                roots.append({"prefix": R.choice(["", "pre", "other"]), "colls": [
                    {"n": n, "items": [{"s": w, "w": 1000} for w in R.sample(["m", "n", "o"], 2)]} for n in R.sample(["za", "zb/c", "zd e"], 2)]})
            if R.random() < 0.4:
                roots.append({"prefix": R.choice(["", "third"]), "files": [fg.file(9 + j, dirs) for j in range(2)]})
            by = {}
            for r in roots:  # roots with the same prefix are listed together
                by.setdefault(r["prefix"], []).append(r)
            roots = [r for rs in by.values() for r in rs]
        cases.append({"roots": roots, "single": single, "links": links})
    check_loading(run, cases)


def check_loading(run, cases):
    global SCRATCH
    SCRATCH = run.work
    obs = pool.run_cases(load_one, cases)
    run.clock("loaded")
    lines = load_lines(cases, obs)
    judge(run, "LoadTrace", cases, lines, "directories", "load")
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample({"files": ["/".join(f["dir"] + [f["stem"] + f["ext"]]) for f in x["roots"][0].get("files", [])], "names": x["names"][:6]})


# ------------------------------ C13 ----------------------------------------
TEXTS = [["b", "a", "b"], ["c"], ["a", "c", "a"]]  # the contents in MCManager.tla


def coll(n, xs):
    return {"n": n, "items": [{"s": x, "w": 1000} for x in xs]}


def text_file(f, xs):
    return {"f": f, "colls": [coll(f[: -len(".txt")], xs)]}


def put(root, f, colls):
    """Write a file holding these collections."""
    p = Path(root) / f
    p.parent.mkdir(parents=True, exist_ok=True)
    if p.suffix == ".txt":
        p.write_text("".join(i["s"] + "\n" for i in colls[0]["items"]), encoding="utf-8")
    else:
        skip = len(str(Path(f).parent)) + 1 if "/" in f else 0
        p.write_text(json.dumps({c["n"][skip:]: [i["s"] for i in c["items"]] for c in colls}), encoding="utf-8")


def history_one(case):
    """Run a history; returns what each operation returned."""
    from dynamicprompts.generators import CombinatorialPromptGenerator
    from dynamicprompts.wildcards import WildcardManager

    tmp = scratch()
    try:
        root = Path(tmp) / "lib"
        root.mkdir()
        for x in case["disk"]:
            put(root, x["f"], x["colls"])
        wms = [WildcardManager(root), WildcardManager(root_map={"": [root]})]
        out = []
        for o in case["h"]:
            wm, r = wms[o["m"] - 1], {**o, "err": ""}
            try:
                if o["op"] == "write":
                    put(root, o["f"], o["colls"])
                elif o["op"] == "remove":
                    (root / o["f"]).unlink(missing_ok=True)
                elif o["op"] == "through":
                    wm.get_file(o["colls"][0]["n"]).write_text("".join(i["s"] + "\n" for i in o["colls"][0]["items"]))
                elif o["op"] == "clear":
                    wm.clear_cache()
                elif o["op"] == "sort":
                    wm.sort_wildcards = o["b"]
                elif o["op"] == "dedup":
                    wm.dedup_wildcards = o["b"]
                elif o["op"] == "shuffle":
                    wm.shuffle_wildcards = o["b"]
                elif o["op"] == "flood":
                    for i in range(o["n"]):
                        wm.get_values(f"flood{i}")
                elif o["op"] == "names":
                    r["names"] = sorted(wm.get_collection_names())
                elif o["op"] == "look":
                    r["got"] = items(wm.get_values(o["p"]))
                elif o["op"] == "strings":
                    r["got"] = [{"s": s, "w": 1000} for s in wm.get_all_values(o["p"])]
                elif o["op"] == "prompt":
                    g = CombinatorialPromptGenerator(wm)
                    r["got"] = [{"s": s, "w": 1000} for s in g.generate(f"__{o['p']}__", 200)]
                else:
                    raise AssertionError(o)
            except Exception as e:
                r["err"] = pool.err(e)
            out.append(r)
        return {"h": out}
    finally:
        shutil.rmtree(tmp)


def check_histories(run, cases, part):
    global SCRATCH
    SCRATCH = run.work
    obs = pool.run_cases(history_one, cases)
    lines = [{"id": i, "disk": c["disk"], "h": o.get("h") or [{**c["h"][0], "err": o.get("fatal", ""), "op": "look", "p": "", "got": []}]}
             for i, (c, o) in enumerate(zip(cases, obs))]
    run.clock(part)
    judge(run, "ManagerTrace", cases, lines, part, "history")
    run.clock("judged")
    for x in lines[:: max(1, len(lines) // 3)]:
        run.sample([{k: v for k, v in o.items() if k not in ("m", "colls") and v != ""} for o in x["h"]])


def c13(run):
    R = run.rng
    # every short history of the model
    out = run.model("MCManager", cfg=run.scale("MCManager.cfg", "MCManagerDeep.cfg"))
    cases = []
    start = [text_file("x.txt", TEXTS[0]), text_file("d/y.txt", TEXTS[1])]
    for h in run.printed(out):
        for o in h:
            o["m"] = 1
            if o["op"] == "write":
                o["colls"] = text_file(o["f"], TEXTS[o.pop("k") - 1])["colls"]
        cases.append({"disk": start, "h": h})
    check_histories(run, cases, "all short histories")
    # longer ones, with two managers, structured files and many patterns
    cases = []
    vals = ["b", "a", "c", "b", "B", "10", "9", "x y"]
    for _ in range(run.scale(2500, 40000)):
        paths = R.sample(["x.txt", "d/y.txt", "d/e/x.txt", "s.json", "d/t.json", "X.txt", "D/y.txt"], R.randint(2, 3))

        def content(f):
            if f.endswith(".txt"):
                return text_file(f, R.choices(vals, k=R.randint(0, 4)))["colls"]
            pre = f.rsplit("/", 1)[0] + "/" if "/" in f else ""
            return [coll(pre + k, R.choices(vals, k=R.randint(1, 3))) for k in R.sample(["k", "l", "K", "z" if pre else "y"], R.randint(1, 2))]

        disk = [{"f": f, "colls": content(f)} for f in paths if R.random() < 0.85]
        h, two, edits = [], R.random() < 0.4, 0
        pats = R.sample(["x", "*", "y", "d/*", "k", "**/y", "d/y", "__x__", "s*", "[xk]", "nope", "d/e/x", "X", "K", "D/y", "D/*", "[XK]"], R.randint(1, 4))
        if R.random() < 0.3:
            pats.append(R.choice([p for p in pats]).swapcase())
        for _ in range(R.randint(5, 18)):
            o = {"m": R.randint(1, 2) if two else 1}
            x = R.random()
            if x < 0.45:
                o.update(op=R.choice(["look", "look", "look", "strings", "prompt"]), p=R.choice(pats))
                if o["op"] == "prompt" and o["p"].startswith("__"):
                    o["op"] = "look"
            elif x < 0.62 and edits < 4:
                edits += 1
                f = R.choice(paths)
                y = R.random()
                if y < 0.25:
                    o.update(op="remove", f=f)
                elif y < 0.35 and f.endswith(".txt"):
                    o.update(op="through", f=f, colls=content(f))
                else:
                    o.update(op="write", f=f, colls=content(f))
            elif x < 0.72:
                o.update(op="clear")
                edits = 0
            elif x < 0.79:
                o.update(op="sort", b=R.random() < 0.5)
            elif x < 0.86:
                o.update(op="dedup", b=R.random() < 0.5)
            elif x < 0.92:
                o.update(op="shuffle", b=R.random() < 0.5)
            elif x < 0.97:
                o.update(op="names")
            else:
                o.update(op="flood", n=R.choice([3, 99, 100, 101, 102, 205]))
            h.append(o)
        cases.append({"disk": disk, "h": h})
    check_histories(run, cases, "long histories")


# ------------------------------ C24 ----------------------------------------
def hierarchy_one(case):
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.tree import WildcardTree

    tmp = scratch()
    try:
        roots, i = [], 0
        for r in case["roots"]:
            p = Path(tmp) / f"root{i}"
            i += 1
            if r.get("missing") == "none":
                roots.append((r["prefix"], p))
            elif r.get("missing") == "file":
                p.write_text("x\n")
                roots.append((r["prefix"], p))
            elif "files" in r:
                p.mkdir()
                for f in r["files"]:
                    write(p, f)
                roots.append((r["prefix"], p))
            else:
                roots.append((r["prefix"], {c["n"]: [x["s"] for x in c["items"]] for c in r["colls"]}))
        root_map = {}
        for prefix, item in roots:
            root_map.setdefault(prefix, []).append(item)
        res = {"names": [], "colls": [], "nodes": [], "rebuilt": [], "error": "", "warned": False, "unknown": ""}
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                if case["both"]:
                    WildcardManager(Path(tmp), root_map=root_map)
                    return res
                wm = WildcardManager(roots[0][1]) if case["single"] else WildcardManager(root_map=root_map)
                tree = wm.tree
            res["warned"] = any(issubclass(w.category, UserWarning) for w in caught)
            res["names"] = sorted(wm.get_collection_names())
            wm.get_collection_names().clear()  # the caller's own set
            res["colls"] = [{"n": n, "items": items(tree.get_collection(n).get_values())} for n in sorted(wm.get_collection_names())]
            todo = [tree.root]
            while todo:
                x = todo.pop()
                res["nodes"].append({
                    "path": x.path, "kids": list(x.child_nodes), "colls": list(x.collections), "full": list(x.get_full_names()),
                    "walked": list(x.walk_full_names()),
                    "items": [{"n": n, "items": items(c.get_values())} for n, c in x.walk_items()]})
                todo += x.child_nodes.values()
            res["rebuilt"] = list(WildcardTree(tree.root).get_collection_names())
            try:
                tree.get_collection("no/such")
            except Exception as e:
                res["unknown"] = pool.err(e)
        except Exception as e:
            res["error"] = pool.err(e)
        return res
    finally:
        shutil.rmtree(tmp)


def check_hierarchies(run, cases, part):
    global SCRATCH
    SCRATCH = run.work
    obs = pool.run_cases(hierarchy_one, cases)
    none = {"names": [], "colls": [], "nodes": [], "rebuilt": [], "warned": False, "unknown": ""}
    lines = []
    for i, (c, o) in enumerate(zip(cases, obs)):
        roots = [{"prefix": r["prefix"], "missing": True} if "missing" in r else spec_roots([r])[0] for r in c["roots"]]
        lines.append({"id": i, "roots": roots, "both": c["both"], **(o if "names" in o else {**none, "error": o["fatal"]})})
    judge(run, "HierarchyTrace", cases, lines, part, "hierarchy")
    for x in lines[:: max(1, len(lines) // 2)]:
        run.sample({"names": x["names"][:5], "nodes": [n["path"] for n in x["nodes"]][:6]})


def c24(run):
    R = run.rng
    cases = []
    for ns in run.printed(run.model("MCHierarchy", cfg=run.scale("MCHierarchy.cfg", "MCHierarchyDeep.cfg"))):
        colls = [{"n": n, "items": [{"s": f"in {n}", "w": 1000}]} for n in ns]
        r = {"prefix": R.choice(["", "", "p", "a", "p/q"]), "colls": colls}
        if R.random() < 0.1:
            r = {"prefix": r["prefix"], "files": [
                {"dir": n.split("/")[:-1], "stem": n.split("/")[-1], "ext": ".txt", "text": f"in {n}\n"} for n in ns]}
        cases.append({"roots": [r], "both": False, "single": "files" in r and r["prefix"] == ""})
    check_hierarchies(run, cases, "small libraries")
    cases = []
    for _ in range(run.scale(2000, 30000)):
        fg = Files(R)
        dirs = R.choice([[[]], [[], ["d"]], [[], ["d"], ["d", "e"], ["d", "e", "f"]], [["p q", "r"], ["p q"], [".h"]], [["d.txt"], ["_u"], []]])
        roots = []
        for j in range(R.choice([1, 1, 2, 3])):
            x = R.random()
            r = {"prefix": R.choice(["", "", "pre", "d", "pre/fix"])}
            if x < 0.5:
                r["files"] = [fg.file(10 * j + i, dirs) for i in range(R.randint(0, 4))]
            elif x < 0.85:
                r["colls"] = [{"n": n, "items": [{"s": w, "w": 1000} for w in R.sample(["m", "n", "o"], 2)]} for n in names(R, R.randint(0, 5))]
            else:
                r["missing"] = R.choice(["none", "file"])
            roots.append(r)
        by = {}
        for r in roots:
            by.setdefault(r["prefix"], []).append(r)
        roots = [r for rs in by.values() for r in rs]
        single = len(roots) == 1 and "colls" not in roots[0] and roots[0]["prefix"] == "" and R.random() < 0.6
        cases.append({"roots": roots, "both": R.random() < 0.03, "single": single})
    check_hierarchies(run, cases, "libraries")
