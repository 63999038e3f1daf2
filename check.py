#!/opt/venv/bin/python
"""check.py <property> [...] -- decide properties of /repo's working tree.
check.py --replay <file> -- show a recorded violation again.

Environment: VERIF_TIER=quick|thorough, VERIF_SEED=<int>."""
from __future__ import annotations

import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True


def main(argv):
    import core

    cache = tempfile.mkdtemp(prefix="verif-pyc-")
    sys.pycache_prefix = cache  # never read compiled files of another tree
    try:
        core.use_repo()
        import props

        if argv[:1] == ["--replay"]:
            return props.replay(argv[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        rc = 0
        for pid in argv:
            run = core.Run(pid, tier, seed)
            try:
                props.CHECKS[pid](run)
            except core.MachineryError as e:
                print(f"{pid}: machinery error: {e}", file=sys.stderr)
                if not run.violations:
                    run.finish()
                    return 2
            rc = max(rc, run.finish())
        return rc
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
