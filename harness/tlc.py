"""Run TLC: trace validation of JSON-lines observations, and models."""
from __future__ import annotations

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


def run_tlc(module, *, cfg=None, env=None, workers=1, heap="2g", timeout=800, extra=(), workdir=None):
    """Run TLC on spec/<module>.tla; return (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cmd = [
        "java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
        "-Djava.io.tmpdir=" + meta,
        "-cp", CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
        "-config", cfg or f"{module}.cfg", *extra, f"{module}.tla",
    ]
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout, encoding="utf-8", errors="replace",
        )
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        raise MachineryError(f"TLC timed out on {module}: {out[-2000:]!r}") from None
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_VERDICT = re.compile(r'^<<"VERDICT", (?:"(.*?)"|(-?\d+)), "(.*?)">>$')
_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


def parse_states(out):
    gen = dist = 0
    for line in out.splitlines():
        m = _STATES.match(line)
        if m:
            gen, dist = int(m[1]), int(m[2])
    return gen, dist


def errors_of(out):
    keep, on = [], False
    for line in out.splitlines():
        if line.startswith("State ") or line.startswith("The behavior up to"):
            on = False
        elif line.startswith("Error:"):
            on = True
        if on:
            keep.append(line)
    return "\n".join(keep)[:6000] or out[-3000:]


def judge(module, lines, *, cfg=None, shards=None, workdir, timeout=800, heap="2g"):
    """Validate recorded observations (dicts with an 'id') against a trace
    specification.  Returns (verdicts {id: clause} without the oks, stats)."""
    lines = list(lines)
    if not lines:
        return {}, {"states": 0, "transitions": 0, "lines": 0}
    shards = max(1, min(shards or NPROC, (len(lines) + 19) // 20))
    parts = [lines[i::shards] for i in range(shards)]

    def one(i):
        """Verdicts of one part; a line whose evaluation fails is set aside."""
        todo, verdicts, st, tr, failed = parts[i], {}, 0, 0, 0
        while todo:
            path = Path(workdir) / f"{module}-{i}-{time.time_ns()}.ndjson"
            path.write_text("".join(json.dumps(x) + "\n" for x in todo), encoding="ascii")
            try:
                rc, out = run_tlc(module, cfg=cfg, env={"TRACE": str(path)}, timeout=timeout, workdir=workdir, heap=heap)
            finally:
                path.unlink()
            for line in out.splitlines():
                m = _VERDICT.match(line)
                if m:
                    verdicts[m[1] if m[1] is not None else int(m[2])] = m[3]
            g, d = parse_states(out)
            st += d
            tr += max(0, g - 1)
            if rc == 0 and f'<<"CONSUMED", {len(todo)}, {len(todo)}>>' in out:
                break
            failed += 1
            if failed > 1 + len(parts[i]) // 50 or not 0 < g <= len(todo):
                bad = todo[g - 1] if 0 < g <= len(todo) else None
                raise MachineryError(f"TLC failed on {module} (exit {rc}) at {bad}:\n{errors_of(out)}")
            verdicts[todo[g - 1]["id"]] = "unjudged"
            UNJUDGED.append((module, todo[g - 1], errors_of(out)))
            todo = todo[g:]
        return verdicts, st, tr

    verdicts, st, tr = {}, 0, 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for v, s, t in ex.map(one, range(shards)):
            verdicts.update(v)
            st += s
            tr += t
    return verdicts, {"states": st, "transitions": tr, "lines": len(lines)}


UNJUDGED = []
