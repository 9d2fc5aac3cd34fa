"""P01-P03 on the real persistence managers."""
import copy
import json
import os
import numpy as np
from core import case, expect
from valori.exceptions import PersistenceError
from valori.persistence import IncrementalPersistence, TensorPersistence

NAMES = ["a", "a", "a.npz", "a.npy", "a.pkl", "a.tmp", "a.b", "a.b.npz", "sub/a", "sub/a.npz", "sub/deep/x", "A", ".hidden", "\u00e9", "a b", "./a", "a.", "a.json", "a.bak", "x" * 60, "state", "index", "vectors"]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def value(rng, depth=2):
    r = rng.randrange(9 if depth else 6)
    if r == 0:
        return rng.choice([None, True, 1.5, -0.0])
    if r == 1:
        return rng.randrange(-5, 2 ** 70 if rng.random() < .1 else 50)
    if r == 2:
        return rng.choice(["", "x", "\u00e9\n", "a" * 20])
    if r == 3:
        return rng.choice([b"", b"\x00\xff"])
    if r == 4:
        return np.array([rng.randrange(9) for _ in range(rng.choice([0, 2, 6]))], dtype=rng.choice(["float32", "float64", "int64"])).reshape(2, -1)
    if r == 5:
        return (1, "t")
    if r == 6:
        return [value(rng, depth - 1) for _ in range(rng.randrange(3))]
    return {rng.choice(["k", "l", 3, ("t",)]): value(rng, depth - 1) for _ in range(rng.randrange(3))}


def state(rng):
    return {"n": rng.randrange(1000), **{"k%d" % i: value(rng) for i in range(rng.randrange(3))}}


def vectors(rng):
    n, d = rng.choice([0, 1, 2, 5, 12]), rng.choice([1, 2, 3])
    v = np.array([[rng.randrange(-9, 9) / 4 for _ in range(d)] for _ in range(n)], dtype=rng.choice(["float32", "float64"])).reshape(n, d)
    if rng.random() < .2:
        v = np.asfortranarray(v)
    ids = ["id%d" % rng.randrange(99) for _ in range(n)] if rng.random() < .7 else [rng.randrange(99) for _ in range(n)]
    if not n:
        ids = []
    return v, ids


def bad(rng, kind):
    if kind == "vectors":
        return np.ones((2, 2)), [[1], [2, 3]]
    return {"n": rng.randrange(1000), "bad": rng.choice([lambda: 0, (x for x in ()), {"k": lambda: 0}])}


def save(m, kind, x, path):
    if kind == "vectors":
        return m.save_vectors(x[0], x[1], path)
    return (m.save_state if kind == "state" else m.save_index)(x, path)


def load(m, kind, path):
    try:
        if kind == "vectors":
            return m.load_vectors(path)
        return (m.load_state if kind == "state" else m.load_index)(path)
    except Exception as e:
        expect(False, "loading %s from %r raises %s" % (kind, path, type(e).__name__), error=str(e))


def empty(kind, r):
    if kind == "vectors":
        return isinstance(r, tuple) and len(r) == 2 and r[0] is None and r[1] is None
    return r is None


def loaded_ok(kind, r, x):
    if kind == "vectors":
        return isinstance(r, tuple) and len(r) == 2 and same(r[0], np.array(x[0])) and isinstance(r[1], list) and same(r[1], list(x[1]))
    return same(r, x)


def scribble(kind, r):
    """What a caller may do with an answer or with what it saved."""
    if kind == "vectors":
        if r[0] is not None and r[0].size:
            r[0].flat[0] += 1
        if r[1]:
            r[1][0] = r[1][-1]
            r[1].pop()
    elif isinstance(r, dict):
        r["scribble"] = 1
        r.pop("n", None)


def clash(path, used):
    k = os.path.normpath(path)
    return any(u.startswith(k + "/") or k.startswith(u + "/") for u in used)


def uninit(c, cls, d):
    m = cls({"data_dir": d})
    before = sorted((p, f) for p, _, f in os.walk(d) for f in f)
    for kind in ("state", "index", "vectors"):
        x = vectors(c.rng) if kind == "vectors" else state(c.rng)
        for f in (lambda: save(m, kind, x, "u"), lambda: (m.load_vectors if kind == "vectors" else m.load_state if kind == "state" else m.load_index)("u")):
            try:
                f()
            except PersistenceError:
                continue
            except Exception as e:
                expect(False, "use before initialization raises %s" % type(e).__name__)
            expect(False, "use before initialization is accepted", kind=kind)
    expect(before == sorted((p, f) for p, _, f in os.walk(d) for f in f), "use before initialization writes files")


@case("P01", weight=4)
def tensor_history(c):
    rng = c.rng
    d = c.newdir()

    def new():
        m = TensorPersistence({"data_dir": rng.choice([d, d + "/"]), "compression": rng.choice([True, False])})
        m.initialize()
        return m
    m = new()
    want = {}
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 4, 6]))]
    for _ in range(rng.choice([2, 5, 12])):
        r = rng.random()
        path = rng.choice(names)
        k = os.path.normpath(path)
        kind = rng.choice(["state", "index", "vectors"])
        if r < .12:
            if rng.random() < .5:
                m.close()
            c.log("restart")
            m = new()
        elif r < .55 and not clash(path, want):
            x = vectors(rng) if kind == "vectors" else state(rng)
            keep = copy.deepcopy(x)
            c.log("save", kind, path, x)
            expect(save(m, kind, x, path) is True, "save does not return True")
            expect(same(tuple(x) if kind == "vectors" else x, tuple(keep) if kind == "vectors" else keep), "save changes its argument")
            scribble(kind, x)
            want[k] = (kind, keep, path)
        elif r < .65 and not clash(path, want):
            c.log("failing save", kind, path)
            try:
                save(m, kind, bad(rng, kind), path)
            except PersistenceError:
                pass
            else:
                expect(False, "a value that cannot be saved is accepted", kind=kind)
        else:
            if k in want:
                kind = want[k][0]
            got = load(m, kind, path)
            c.log("load", kind, path)
            if k in want:
                expect(loaded_ok(kind, got, want[k][1]), "loading %s from %r does not return what was saved" % (kind, path), got=repr(got), saved=repr(want[k][1]))
                scribble(kind, got)
            elif not clash(path, want):
                expect(empty(kind, got), "loading a path never saved returns something", path=path, got=repr(got))
    m2 = new()
    for man in (m, m2):
        for k, (kind, x, path) in want.items():
            got = load(man, kind, path)
            expect(loaded_ok(kind, got, x), "loading %s from %r does not return what was saved" % (kind, path), got=repr(got), saved=repr(x), trace=c.trace)
        for path in NAMES:
            if os.path.normpath(path) not in want and not clash(path, want):
                for kind in ("state", "index", "vectors"):
                    expect(empty(kind, load(man, kind, path)), "loading a path never saved returns something", path=path, trace=c.trace)


@case("P01")
def tensor_uninit(c):
    uninit(c, TensorPersistence, c.newdir())


@case("P02")
def incremental_uninit(c):
    uninit(c, IncrementalPersistence, c.newdir())


def log_lines(d):
    with open(os.path.join(d, "operations.log")) as f:
        return f.read()


def damage(rng, d):
    f = os.path.join(d, "checkpoint.json")
    if not os.path.exists(f):
        return
    r = rng.randrange(4)
    if r == 0:
        os.unlink(f)
        return
    t = open(f).read()
    with open(f, "w") as g:
        g.write(["", t[:len(t) // 2], "garbage"][r - 1])


@case("P02 P03", weight=5)
def incremental_history(c):
    rng = c.rng
    d = c.newdir()
    interval = rng.choice([1, 1, 2, 3, 5, 100])
    prop3 = c.prop == "P03"

    def new():
        m = IncrementalPersistence({"data_dir": d, "checkpoint_interval": interval})
        m.initialize()
        return m
    m = new()
    current, want, lost, mark, hit = None, {}, False, 0, False
    names = [n for n in (rng.choice(NAMES) for _ in range(rng.choice([1, 2, 4])))]
    lines, ops = "", []
    for _ in range(rng.choice([3, 8, 25])):
        r = rng.random()
        kind = rng.choice(["state", "state", "index", "vectors"])
        path = rng.choice(names)
        if r < .2:
            if rng.random() < .5:
                m.close()
            if rng.random() < .35:
                damage(rng, d)
                lost = True
                c.log("bookkeeping damaged")
            m = new()
            c.log("restart")
            if lost:
                mark = m.get_stats()["last_checkpoint"]
            expect(m.get_stats()["last_checkpoint"] == mark, "the checkpoint marker changes with a restart", trace=c.trace)
            lost = False
        elif r < .75 and not clash(path, want):
            x = vectors(rng) if kind == "vectors" else state(rng)
            if kind == "vectors" and rng.random() < .3:
                ids = list(np.arange(len(x[0])))
                x = (x[0], ids)
                keep = (np.array(x[0]), [int(i) for i in ids])
            else:
                keep = copy.deepcopy(x)
            c.log("save", kind, path)
            expect(save(m, kind, x, path) is True, "save does not return True")
            scribble(kind, x)
            if kind == "state":
                current = keep
            else:
                want[os.path.normpath(path)] = (kind, keep, path)
            if prop3:
                now = log_lines(d)
                expect(now.startswith(lines), "an earlier log entry changed", before=lines, after=now)
                new_part = now[len(lines):]
                expect(new_part.endswith("\n") and new_part.count("\n") == 1, "a save does not append exactly one log line", appended=new_part, trace=c.trace)
                e = json.loads(new_part)
                expect(e["operation"] == "save_" + kind, "the log entry names another operation", entry=e)
                expect(not ops or e["operation_id"] > ops[-1], "operation numbers do not increase", entry=e, earlier=ops[-3:], trace=c.trace)
                n = e["operation_id"]
                m1 = n if kind == "state" else mark
                if n + 1 - m1 >= interval:
                    m1 = n + 1
                s = m.get_stats()
                expect(s["operation_count"] == n + 1, "the operation count is not the number after the logged one", stats=s, entry=e)
                expect(s["last_checkpoint"] == m1, "the checkpoint marker is not where the rule puts it", stats=s, expected=m1, interval=interval, trace=c.trace)
                expect(s["logged_operations"] == len(ops) + 1, "the statistics do not count the log entries", stats=s)
                ops.append(n)
                lines = now
            mark = m.get_stats()["last_checkpoint"]
        elif r < .82 and not clash(path, want):
            c.log("failing save", kind, path)
            try:
                save(m, kind, bad(rng, kind), path)
            except PersistenceError:
                pass
            else:
                expect(False, "a value that cannot be saved is accepted", kind=kind)
            if prop3:
                now = log_lines(d)
                expect(now == lines, "a failing save writes to the log", appended=now[len(lines):])
        else:
            check_loads(m, current, want, path, c)
    for man in (m, new()):
        for path in names + ["other"]:
            check_loads(man, current, want, path, c)


def check_loads(m, current, want, path, c):
    got = load(m, "state", path)
    expect(same(got, current), "loading the state does not return the most recently saved one", got=repr(got), saved=repr(current), trace=c.trace)
    scribble("state", got)
    k = os.path.normpath(path)
    if k in want:
        kind, x, _ = want[k]
        got = load(m, kind, path)
        expect(loaded_ok(kind, got, x), "loading %s from %r does not return what was saved" % (kind, path), got=repr(got), saved=repr(x), trace=c.trace)
        scribble(kind, got)
    elif not clash(path, want):
        for kind in ("index", "vectors"):
            expect(empty(kind, load(m, kind, path)), "loading a path never saved returns something", path=path)
