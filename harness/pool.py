"""Run observations of the real code in worker processes, each case under a
time and memory limit.  A worker that dies or hangs loses only its current
case."""
from __future__ import annotations

import logging
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import warnings

NPROC = max(1, min(8, os.cpu_count() or 1))
MEM = 3 << 30


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def err(e: BaseException) -> str:
    """The specification's name of an error."""
    if isinstance(e, CaseTimeout):
        return "!!Timeout"
    for cls in type(e).__mro__:
        if cls.__module__.startswith("pyparsing"):
            return "!!Parse"
    return "!!" + type(e).__name__


def guarded(fn, case, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fn(case)
    except CaseTimeout:
        return {"fatal": "!!Timeout"}
    except MemoryError:
        return {"fatal": "!!MemoryError"}
    except Exception as e:  # an exception the driver did not expect
        return {"fatal": err(e), "note": repr(e)[:300]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _child(fn, cases, todo, fd, timeout):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(2000)
    for i in todo:
        data = pickle.dumps((i, guarded(fn, cases[i], timeout)))
        data = struct.pack("<I", len(data)) + data
        while data:
            data = data[os.write(fd, data):]


class _Worker:
    def __init__(self, fn, cases, todo, timeout):
        self.args = (fn, cases, timeout)
        self.todo = list(todo)
        self.start()

    def start(self):
        fn, cases, timeout = self.args
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                _child(fn, cases, self.todo, w, timeout)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.fd, self.buf, self.last = r, b"", time.time()

    def stop(self):
        os.close(self.fd)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def run_cases(fn, cases, *, timeout=10, procs=None):
    """[fn(case) for case in cases]; {"fatal": error} where that failed."""
    cases = list(cases)
    procs = max(1, min(procs or NPROC, len(cases)))
    results = [None] * len(cases)
    live = [_Worker(fn, cases, range(i, len(cases), procs), timeout) for i in range(procs) if cases]
    while live:
        ready, _, _ = select.select([w.fd for w in live], [], [], 1.0)
        now = time.time()
        for w in list(live):
            eof = False
            if w.fd in ready:
                data = os.read(w.fd, 1 << 20)
                eof = not data
                w.buf += data
                w.last = now
                while len(w.buf) >= 4:
                    n = struct.unpack("<I", w.buf[:4])[0]
                    if len(w.buf) < 4 + n:
                        break
                    i, res = pickle.loads(w.buf[4:4 + n])
                    w.buf = w.buf[4 + n:]
                    results[i] = res
                    w.todo.remove(i) if w.todo[0] != i else w.todo.pop(0)
            hung = now - w.last > 3 * timeout + 20
            if eof or hung:
                w.stop()
                if w.todo:
                    results[w.todo.pop(0)] = {"fatal": "!!Timeout" if hung else "!!Killed"}
                if w.todo:
                    w.start()
                else:
                    live.remove(w)
    return results
