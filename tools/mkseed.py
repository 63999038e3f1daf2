#!/usr/bin/env python3
"""mkseed.py FILE... -- turn bug definitions into /verif/seeded/<id>/.

A definition is a Python file that sets ID, PROPERTY, NEEDS, BREAKS, EDITS
(list of (path under src/dynamicprompts, old, new)) and DEMO (Python text that
fails with the bug).  Each is confirmed in a scratch copy of /repo: the stable
tests pass with the change, and the demo passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main(path):
    d = {}
    exec(compile(open(path).read(), path, "exec"), d)
    out = f"/verif/seeded/{d['ID']}"
    wt = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    try:
        sh(f"cp -a /repo/. {wt}/")
        for f, old, new in d["EDITS"]:
            p = f"{wt}/src/dynamicprompts/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(d["ID"], "EDIT DOES NOT APPLY", f, s.count(old)); return
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {wt} diff").stdout
        demo = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
        open(demo + "/demo.py", "w").write(d["DEMO"])
        open(demo + "/demo.sh", "w").write(
            '#!/bin/sh\n# cwd: the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" '
            'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(demo + "/demo.sh", 0o755)
        a = sh(f"{demo}/demo.sh", cwd="/repo"); b = sh(f"{demo}/demo.sh", cwd=wt)
        t = sh(f"PYTHONPATH={wt}/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -n 4 -p no:cacheprovider 2>&1 || PYTHONPATH={wt}/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -15", cwd=wt)
        ok_tests = " failed" not in t.stdout and " passed" in t.stdout
        print(d["ID"], "demo base", a.returncode, "patched", b.returncode, "tests", "ok" if ok_tests else "FAIL\n" + t.stdout[-1500:])
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        if a.returncode == 0 and b.returncode != 0 and ok_tests:
            os.makedirs(out, exist_ok=True)
            shutil.copy(demo + "/demo.py", out); shutil.copy(demo + "/demo.sh", out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            print("  kept", out)
        shutil.rmtree(demo)
    finally:
        shutil.rmtree(wt)

for f in sys.argv[1:]:
    main(f)
