"""Concrete harness: runs the real code on generated inputs; a case is identified by (function, seed, number).

Used (a) to replay / search a failing input after the verifier reports a failed obligation and
(b) as the labelled bounded cross-check of every run.  It never decides a property by itself
when the verifier has accepted the obligations; a failing input found here is a violation all the same.
"""
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASES = {}
CPU_LIMIT = 25.0


class Fail(Exception):
    """The property is violated by this input."""

    def __init__(self, msg, **detail):
        Exception.__init__(self, msg)
        self.detail = detail


class Timeout(BaseException):
    pass


def case(props, weight=1):
    def dec(fn):
        for p in props.split():
            CASES.setdefault(p, []).append((fn, weight))
        return fn
    return dec


def expect(cond, msg, **detail):
    if not cond:
        raise Fail(msg, **detail)


class Ctx:
    """What a case gets: random source, size hint, scratch directory, trace of what it did."""

    def __init__(self, rng, n, scratch, prop):
        self.rng, self.n, self.root, self.prop = rng, n, scratch, prop
        self.trace = []
        self._dir = None

    def log(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(dir=self.root)
        return self._dir

    def newdir(self):
        return tempfile.mkdtemp(dir=self.root)

    def close(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)


def run_case(prop, fn, seed, n, scratch):
    """None, or a failure record."""
    c = Ctx(random.Random("%s/%s/%d/%d" % (prop, fn.__name__, seed, n)), n, scratch, prop)
    import numpy as np
    np.random.seed((seed * 7919 + n) % (2 ** 32))
    random.seed(seed * 31337 + n)

    def onalarm(sig, frame):
        raise Timeout()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    msg = None
    try:
        fn(c)
    except Fail as e:
        msg, detail = str(e), e.detail
    except Timeout:
        msg, detail = "does not terminate (CPU limit of %g s)" % CPU_LIMIT, {}
    except MemoryError:
        msg, detail = "memory exhausted", {}
    except Exception as e:
        msg, detail = "unexpected %s: %s" % (type(e).__name__, e), {"traceback": traceback.format_exc()[-2000:]}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        c.close()
    if msg is None:
        return None
    return {"property": prop, "case": fn.__name__, "seed": seed, "n": n, "what": msg,
            "detail": {k: repr(v)[:2000] for k, v in detail.items()}, "history": c.trace[-200:]}


def search(prop, seed, seconds, scratch, maxcases=10 ** 9, mincases=0):
    t0 = time.time()
    fns = [f for f, w in CASES.get(prop, []) for _ in range(w)]
    done, counts = 0, {}
    fails = []
    n = 0
    while fns and done < maxcases and (time.time() - t0 < seconds or done < mincases):
        for f in fns:
            r = run_case(prop, f, seed, n, scratch)
            n += 1
            done += 1
            counts[f.__name__] = counts.get(f.__name__, 0) + 1
            if r:
                fails.append(r)
                return {"evaluations": done, "cases": counts, "failures": fails, "wall_s": time.time() - t0}
            if time.time() - t0 > seconds * 3 + 30:
                break
    return {"evaluations": done, "cases": counts, "failures": fails, "wall_s": time.time() - t0}


def contain(scratch):
    """Run as an unprivileged user that owns nothing but the scratch directory."""
    import resource
    if os.getuid() == 0:
        os.chown(scratch, 65534, 65534)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError as e:
            print(json.dumps({"error": "cannot drop privileges: %s" % e}))
            sys.exit(3)
    os.chdir(scratch)
    os.environ["HOME"] = os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    except (ValueError, OSError):
        pass
