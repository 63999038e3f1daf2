"""Shared machinery of the checks: scratch space, counters, violations,
evidence."""
from __future__ import annotations

import json
import os
import random
import shutil
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("DP_REPO", "/repo")

import tlc  # noqa: E402
from tlc import MachineryError  # noqa: E402


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.parts, self.notes = [], [], {}, []
        self.known = known_findings(pid)

    # ------------------------------------------------------------------
    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def clock(self, what):
        if os.environ.get("VERIF_CLOCK"):
            print(f"  [{time.time() - self.t0:7.1f} s] {what}", file=sys.stderr)

    def count(self, part, **kw):
        p = self.parts.setdefault(part, {})
        for k, v in kw.items():
            p[k] = p.get(k, 0) + v

    def model(self, module, *, cfg=None, env=None, workers=tlc.NPROC, timeout=800, heap="6g", extra=(), part=None):
        """Model-check a specification; its invariants must hold."""
        rc, out = tlc.run_tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, heap=heap,
                              extra=extra, workdir=self.work)
        if rc != 0:
            raise MachineryError(f"model {module} fails (exit {rc}):\n{tlc.errors_of(out)}")
        gen, dist = tlc.parse_states(out)
        self.states += dist
        self.transitions += gen
        self.count(part or f"model {module}", states=dist, transitions=gen)
        return out

    @staticmethod
    def printed(out):
        """The JSON values a model printed (in an order that does not depend on TLC's workers)."""
        for line in sorted(set(out.splitlines())):
            if line[:2] in ('"[', '"{'):
                yield json.loads(json.loads(line))

    def judge(self, module, lines, *, cfg=None, part=None, timeout=800, heap="2g"):
        """Validate observations; returns the verdicts that are not ok."""
        v, st = tlc.judge(module, lines, cfg=cfg, workdir=self.work, timeout=timeout, heap=heap)
        self.states += st["states"]
        self.transitions += st["transitions"]
        skipped = sum(x in ("skip", "unjudged") for x in v.values())
        self.traces += st["lines"] - skipped
        self.count(part or module, observations=st["lines"], undecided=skipped)
        return v

    # ------------------------------------------------------------------
    def sample(self, x, limit=8):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, case, observed, expected=None):
        rec = {"property": self.pid, "what": what, "case": case, "observed": observed}
        if expected is not None:
            rec["expected"] = expected
        self.violations.append(rec)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        new, listed = [], []
        for v in self.violations:
            v["case"] = json.loads(json.dumps(v["case"], default=str))  # as it is written
            key = json.dumps(v["case"], sort_keys=True)
            hit = [f for f in self.known if f["case"] == key]
            (listed if hit else new).append((v, hit))
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        out = Path(os.environ.get("VERIF_EVIDENCE", VERIF)) / "replays"
        out.mkdir(parents=True, exist_ok=True)
        for old in out.glob(f"{self.pid}-*.json"):
            old.unlink()
        for i, (v, _) in enumerate(new[:20]):
            path = out / f"{self.pid}-{i}.json"
            path.write_text(json.dumps(v, indent=1, sort_keys=True, default=str) + "\n")
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {v['what']}: {json.dumps(v['case'], default=str)[:600]}")
            print(f"  observed {json.dumps(v['observed'], default=str)[:600]}")
            if "expected" in v:
                print(f"  expected {str(v['expected'])[:600]}")
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
            "parts": self.parts,
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
            "assumptions": ASSUMPTIONS,
        }
        where = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
        where.mkdir(exist_ok=True)
        (where / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        print(f"{self.pid}: {self.traces} observations validated, {self.states} states, "
              f"{len(new)} violations, {ev['wall_s']} s")
        return 1 if new else 0


ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "the harness records faithfully what the public API returns",
]


def known_findings(pid):
    """Lines 'known: property=<id> case=<json> what=<text>' of the findings file."""
    res = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text(encoding="utf-8").splitlines():
            if line.startswith(f"known: property={pid} "):
                rest = line.split(" case=", 1)[1]
                case, what = rest.rsplit(" what=", 1)
                res.append({"case": json.dumps(json.loads(case), sort_keys=True), "what": what})
    return res


def use_repo():
    """Import the library from the repository's working tree."""
    sys.dont_write_bytecode = True
    src = REPO + "/src"
    if src not in sys.path:
        sys.path.insert(0, src)
    import dynamicprompts

    if not os.path.realpath(dynamicprompts.__file__).startswith(os.path.realpath(src)):
        raise MachineryError(f"dynamicprompts comes from {dynamicprompts.__file__}, not {src}")
