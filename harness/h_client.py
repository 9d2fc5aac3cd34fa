"""V01 on the real client with recording components."""
import numpy as np
from core import case, expect, Fail
from valori.client import VectorDBClient
from valori.exceptions import ValoriError


class Comp:
    def __init__(self, name, log, rng, bad):
        self._n, self._log, self._rng, self._bad = name, log, rng, bad

    def _call(self, m, a, k):
        ans = object()
        if self._rng.random() < self._bad:
            self._log.append((self._n, m, a, k, None))
            raise RuntimeError("component failed")
        self._log.append((self._n, m, a, k, ans))
        return ans

    def __getattr__(self, m):
        if m.startswith("__"):
            raise AttributeError(m)
        return lambda *a, **k: self._call(m, a, k)


NAMES = {"insert": ("vectors", "metadata"), "search": ("query_vector", "k"), "delete": ("ids",), "update": ("id", "vector", "metadata")}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def args_for(rng, op):
    md = rng.choice([None, {}, {"a": 1}])
    dt = rng.choice([np.float64, np.float32])
    v = np.array([rng.uniform(-2, 2) for _ in range(rng.choice([1, 3]))], dtype=dt)
    if op == "insert":
        n = rng.choice([0, 1, 2])
        m = rng.choice([None, [], [{"x": i} for i in range(rng.choice([n, n + 1]))]])
        return [np.array([[rng.random() for _ in range(3)] for _ in range(n)], dtype=dt).reshape(n, 3), m]
    if op == "search":
        return [v, rng.choice([1, 3, 10, 0, 1000])]
    if op == "delete":
        return [rng.choice([[], ["a"], ["a", "b", "a"]])]
    return [rng.choice(["a", "b c", ""]), v, md]


@case("V01")
def client_front(c):
    rng = c.rng
    log = []
    bad = rng.choice([0, 0, 0.2])
    comps = {n: Comp(n, log, rng, bad) for n in ("storage_backend", "index", "quantizer", "persistence_manager")}
    if rng.random() < .5:
        comps["quantizer"] = None
    if rng.random() < .5:
        comps["persistence_manager"] = None
    cl = VectorDBClient(comps["storage_backend"], comps["index"], comps["quantizer"], comps["persistence_manager"])
    expect(not log, "the constructor uses a component")
    present = {n for n, v in comps.items() if v is not None}
    up = False
    for _ in range(rng.choice([4, 10])):
        del log[:]
        op = rng.choice(["insert", "search", "delete", "update", "get_stats", "initialize", "close", "insert", "search"])
        args = args_for(rng, op) if op in NAMES else []
        import copy
        given = copy.deepcopy(args)
        kw = {}
        if args and rng.random() < .3:
            kw, args2 = dict(zip(NAMES[op], args)), []
        else:
            args2 = args
        c.log(op, args, kw)
        exc = ans = None
        try:
            ans = getattr(cl, op)(*args2, **kw)
        except Exception as e:
            exc = e
        who = [x[0] for x in log]
        if op == "initialize":
            expect(all(x[1] == "initialize" for x in log) and len(set(who)) == len(who), "initialize does something else to the components", log=log)
            if "index" in who:
                i = who.index("index")
                expect("storage_backend" in who[:i], "the index is initialized before the storage")
                a = list(log[i][2]) + list(log[i][3].values())
                expect(a and a[0] is comps["storage_backend"], "the index does not get the storage")
            if any(x[4] is None for x in log):
                expect(isinstance(exc, ValoriError), "a failed initialization is not reported with the library's error", exc=exc)
            else:
                expect(exc is None, "initialize fails without reason", exc=exc)
                expect(set(who) == present, "not every component is initialized", who=who)
                up = True
        elif op == "close":
            expect(all(x[1] == "close" for x in log), "close does something else to the components")
            if exc is None:
                expect(set(who) == present, "not every component is closed", who=who)
                up = False
            else:
                expect(any(x[4] is None for x in log), "close fails without reason", exc=exc)
                return
        elif not up:
            expect(isinstance(exc, ValoriError), "an uninitialized client does not refuse %s" % op, exc=exc, ans=ans)
            expect(not log, "a refused %s reaches a component" % op, log=log)
        elif op == "get_stats":
            expect(all(x[1] == "get_stats" for x in log), "get_stats does something else to the components")
            if exc is None:
                expect(isinstance(ans, dict), "statistics are no dictionary")
                for n, key in (("storage_backend", "storage"), ("index", "index")):
                    expect(any(x[0] == n and ans.get(key) is x[4] for x in log), "statistics of the %s are not its answer" % key)
            else:
                expect(any(x[4] is None for x in log), "get_stats fails without reason", exc=exc)
        else:
            expect(len(log) == 1 and log[0][0] == "index" and log[0][1] == op, "%s is not passed to the index exactly once" % op, log=log)
            got = dict(zip(NAMES[op], log[0][2]))
            got.update(log[0][3])
            expect(set(got) <= set(NAMES[op]), "unknown argument passed", got=got)
            for n, v in zip(NAMES[op], args):
                expect(same(got.get(n), v), "%s does not reach the index unchanged" % n, got=got.get(n), given=v)
            for g, v in zip(given, args):
                expect(same(g, v), "%s modifies its arguments" % op)
            if log[0][4] is None:
                expect(exc is not None, "a failure of the index is hidden")
            else:
                expect(exc is None and ans is log[0][4], "the answer of the index is not returned", exc=exc, ans=ans)
