#!/usr/bin/env python3
"""runseeds.py [id-prefix...] -- run the registered check of each planted bug
against a scratch copy of /repo with the bug applied; prints caught or MISSED."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
pre = sys.argv[1:]
for d in sorted(glob.glob("/verif/seeded/*/")):
    i = os.path.basename(d[:-1])
    if pre and not any(i.startswith(p) for p in pre):
        continue
    meta = json.load(open(d + "meta.json"))
    wt = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp")
    try:
        subprocess.run(f"cp -a /repo/src {wt}/ && cd {wt} && git init -q . && git apply {d}patch.diff", shell=True, check=True)
        t = time.time()
        p = subprocess.run(["./check.py", meta["property"]], cwd=os.environ.get("VERIF_COPY", "/verif"), capture_output=True, text=True,
                           env={**os.environ, "DP_REPO": wt, "VERIF_EVIDENCE": wt, "VERIF_TIER": "quick", "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        n = len(re.findall("^VIOLATION", p.stdout, re.M))
        print(f"{i:34} {meta['property']} {'caught' if p.returncode == 1 and n else 'MISSED'} exit={p.returncode} violations={n} {time.time() - t:.0f}s", flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-600:], p.stderr[-1500:])
    finally:
        shutil.rmtree(wt)
