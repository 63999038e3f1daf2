#!/usr/bin/env python3
"""runreverts.py [commit-prefix...] -- revert each fix: commit in a scratch
clone of /repo and run its property's check; prints caught, MISSED or conflict."""
import os, re, shutil, subprocess, sys, tempfile, time
pre = sys.argv[1:]
for line in open("/verif/known_findings.txt", encoding="utf-8"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if not m or (pre and not any(m[2].startswith(p) for p in pre)):
        continue
    wt = tempfile.mkdtemp(prefix="revert-", dir="/tmp")
    try:
        subprocess.run(f"git clone -q /repo {wt}/r", shell=True, check=True)
        r = subprocess.run(f"cd {wt}/r && git -c user.name=x -c user.email=x@x revert --no-edit {m[2]}", shell=True, capture_output=True, text=True)
        if r.returncode:
            print(f"{m[1]} {m[2]} conflict: {m[3]}", flush=True)
            continue
        t = time.time()
        p = subprocess.run(["./check.py", m[1]], cwd=os.environ.get("VERIF_COPY", "/verif"), capture_output=True, text=True,
                           env={**os.environ, "DP_REPO": f"{wt}/r", "VERIF_EVIDENCE": wt, "VERIF_TIER": "quick", "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        n = len(re.findall("^VIOLATION", p.stdout, re.M))
        print(f"{m[1]} {m[2]} {'caught' if p.returncode == 1 and n else 'MISSED'} violations={n} {time.time() - t:.0f}s {m[3]}", flush=True)
    finally:
        shutil.rmtree(wt)
