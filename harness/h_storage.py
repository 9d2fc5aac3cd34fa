"""Storage backends against a map model (S01-S05)."""
import copy
import random
import shutil
import string

import numpy as np
from core import case, expect, Fail

from valori.storage import MemoryStorage, DiskStorage, HybridStorage
from valori.exceptions import StorageError

NASTY = ["a", "A", "b", "a/b", "a_b", "a-b", "a.b", "a b", "..", ".", "../x", "../../x", "/abs", "a\\b", "%", "%2f", "a%b", "_", "__", "a:b", "a*b",
         "a?b", "é", "e\u0301", "日本", "a\x00b", "a\nb", "x.npy", "x.pkl", "x", "-", "~", "a'b", '"', "\ud800", "1", "01", "a%00002fb", "_2f", "%00002f",
         "con", "*", "[ab]", "a.", ".a", "\U0001f600", "a/", "/", "//", "\\", "a+b", "a&b", "@", "#", "a=b", "a,b", "{x}", "$HOME", " ", "\t"]


def rid(rng, small):
    if rng.random() < 0.75:
        return rng.choice(small)
    if rng.random() < 0.5:
        return rng.choice(NASTY)
    return "".join(rng.choice("ab/._-%\\é :0" + chr(rng.choice([0x2f, 0x5c, 0x25, 0x5f, 0x100, 0x1F600, 0x2e]))) for _ in range(rng.randint(1, 6)))


def rvec(rng, d=None):
    d = d or rng.randint(1, 6)
    t = rng.choice([np.float32, np.float32, np.float64])
    v = np.array([rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), 1e-7, 16777217.0, 0.1]) for _ in range(d)], dtype=t)
    return v


def rmeta(rng):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.4:
        return {}
    m = {"k": rng.randint(0, 9), "s": rng.choice(["x", "", "é"])}
    if rng.random() < 0.4:
        m["n"] = [1, {"z": rng.randint(0, 5)}]
    if rng.random() < 0.2:
        m[rng.choice(["id", "vector", "metadata", "timestamp"])] = rng.choice([1, None, "q"])
    return m


def same(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def mk(kind, path, limit):
    if kind == "memory":
        return MemoryStorage({})
    if kind == "disk":
        return DiskStorage({"data_dir": path})
    return HybridStorage({"memory_limit": limit, "memory": {}, "disk": {"data_dir": path}})


def disk_count(st, kind):
    s = st.get_stats()
    return s["disk"]["vector_count"] if kind == "hybrid" else s["vector_count"]


def check_all(c, st, kind, model, ids, tag, limit):
    P = c.prop
    if P in ("S01", "S02", "S03", "S04"):
        order = list(ids)
        c.rng.shuffle(order)
        for i in order:
            r = st.retrieve_vector(i)
            if i not in model:
                expect(r is None, "an absent id is retrieved", id=i, got=r)
                continue
            expect(r is not None, "a live id is not retrieved", id=i)
            v, m = r
            expect(same(v, model[i][0]), "wrong vector for an id", id=i, got=v, want=model[i][0])
            expect(m == model[i][1], "wrong metadata for an id", id=i, got=m, want=model[i][1])
    if P in ("S05", "S04"):
        l = st.list_vectors()
        expect(sorted(l, key=repr) == sorted(model, key=repr), "listing differs from the live ids", got=l, want=list(model))
        k = c.rng.randint(0, len(model) + 2)
        lk = st.list_vectors(k) if c.rng.random() < 0.5 else st.list_vectors(limit=k)
        expect(len(lk) == min(k, len(model)) and len(set(lk)) == len(lk) and set(lk) <= set(model), "limited listing", limit=k, got=lk, live=list(model))
        expect(disk_count(st, kind) == len(model), "vector count in the statistics", got=disk_count(st, kind), want=len(model))
    if kind == "hybrid":
        mem = st.memory_storage
        held = mem.list_vectors()
        if P == "S03":
            expect(len(held) <= max(limit, 1), "memory tier exceeds its limit", held=held, limit=limit)
            expect(mem.get_stats()["vector_count"] == len(held), "memory count")
            for i in held:
                d, h = st.disk_storage.retrieve_vector(i), mem.retrieve_vector(i)
                expect(d is not None and i in model, "memory tier holds an id that is not on disk", id=i)
                expect(same(h[0], d[0]) and h[1] == d[1], "memory and disk tier disagree", id=i, mem=h, disk=d)


def scribble(rng, v, m):
    if v is not None:
        v[...] = 99.5
    if m is not None:
        for k in list(m):
            if rng.random() < 0.5:
                del m[k]
        m["scribbled"] = 1


def history(c, kinds, reopen=True):
    rng = c.rng
    kind = rng.choice(kinds)
    limit = rng.choice([0, 1, 2, 3, 5])
    path = c.dir + "/data"
    st = mk(kind, path, limit)
    c.log(kind, "limit", limit)
    for f in (lambda: st.store_vector("a", rvec(rng)), lambda: st.retrieve_vector("a"), lambda: st.delete_vector("a"), lambda: st.update_vector("a", rvec(rng)),
              lambda: st.list_vectors()):
        try:
            f()
        except StorageError:
            continue
        raise Fail("an uninitialized backend accepts an operation")
    st.initialize()
    model = {}
    small = [rng.choice(NASTY) for _ in range(rng.randint(2, 6))]
    ids = set(small)
    for step in range(rng.randint(3, 12 + min(c.n, 30))):
        op = rng.choice(["store", "store", "store", "retrieve", "retrieve", "delete", "update", "update", "list", "reopen", "check"])
        i = rid(rng, small)
        ids.add(i)
        if op in ("store", "update"):
            v, m = rvec(rng), rmeta(rng)
            keep = (v.copy(), copy.deepcopy(m))
            c.log(op, repr(i), keep)
            if op == "store":
                ok = st.store_vector(i, v, m) if m is not None or rng.random() < 0.5 else st.store_vector(i, v)
                expect(ok is True, "store of a non-empty id is not accepted", id=i, got=ok)
                model[i] = keep
            else:
                ok = st.update_vector(i, v, m) if m is not None or rng.random() < 0.5 else st.update_vector(i, v)
                expect(bool(ok) == (i in model), "update reports presence", id=i, got=ok)
                if i in model:
                    model[i] = keep
            if c.prop in ("S01", "S02"):
                expect(np.array_equal(v, keep[0]) and m == keep[1], "the caller's objects are modified", id=i)
            if c.prop == "S02":
                scribble(rng, v, m)
        elif op == "retrieve":
            c.log("retrieve", repr(i))
            r = st.retrieve_vector(i)
            expect((r is not None) == (i in model), "retrieval of a live/absent id", id=i, got=r)
            if r is not None:
                expect(same(r[0], model[i][0]) and r[1] == model[i][1], "retrieved data", id=i, got=r, want=model[i])
                if c.prop == "S02":
                    scribble(rng, r[0], r[1])
        elif op == "delete":
            c.log("delete", repr(i))
            ok = st.delete_vector(i)
            expect(bool(ok) == (i in model), "delete reports presence", id=i, got=ok)
            model.pop(i, None)
        elif op == "list":
            l = st.list_vectors()
            if c.prop == "S05":
                expect(sorted(l, key=repr) == sorted(model, key=repr), "listing", got=l, want=list(model))
                l.append("junk")
        elif op == "reopen" and reopen and kind != "memory" and rng.random() < 0.4:
            c.log("reopen")
            if rng.random() < 0.8:
                st.close()
            st = mk(kind, path, limit) if rng.random() < 0.8 else st
            st.initialize()
            check_all(c, st, kind, model, sorted(ids, key=repr), "reopen", limit)
        elif op == "check" or c.prop in ("S03", "S05"):
            check_all(c, st, kind, model, sorted(ids, key=repr), op, limit)
    expect(st.store_vector("", rvec(rng)) is False, "the empty id is accepted")
    if kind != "memory" and c.prop == "S04":
        st.close()
        st = mk(kind, path, limit)
        st.initialize()
        st.initialize()
    check_all(c, st, kind, model, sorted(ids, key=repr), "end", limit)
    if c.prop == "S05":
        st.close()
        if kind == "memory":
            st.initialize()
            expect(st.list_vectors() == [] and disk_count(st, kind) == 0, "memory storage not empty after re-initialization")


@case("S01 S02 S05")
def any_backend(c):
    history(c, ["memory", "disk", "hybrid", "hybrid"])


@case("S03")
def hybrid_history(c):
    history(c, ["hybrid"])


@case("S04")
def durable_history(c):
    history(c, ["disk", "hybrid"])


@case("S01 S04 S05")
def file_names(c):
    """Ids that only differ in characters a file name cannot hold."""
    rng = c.rng
    st = DiskStorage({"data_dir": c.dir})
    st.initialize()
    model = {}
    alpha = "".join(chr(x) for x in (list(range(1, 128)) if rng.random() < 0.7 else [rng.randrange(1, 0x3000) for _ in range(60)]))
    for _ in range(60):
        i = "".join(rng.choice(alpha) for _ in range(rng.randint(1, 3)))
        v = np.array([rng.random()])
        st.store_vector(i, v, {"i": repr(i)})
        model[i] = (v, {"i": repr(i)})
    for i in rng.sample(sorted(model), 10):
        expect(st.delete_vector(i) is True, "delete", id=i)
        del model[i]
    for i, (v, m) in model.items():
        r = st.retrieve_vector(i)
        expect(r is not None and same(r[0], v) and r[1] == m, "ids share a file", id=i, got=r, want=(v, m))
    l = st.list_vectors()
    expect(sorted(l, key=repr) == sorted(model, key=repr), "listing", got=l, want=list(model))
    expect(st.get_stats()["vector_count"] == len(model), "count")


@case("S01")
def sanitize_injective(c):
    """_sanitize_id / _restore_id on many code points (file-name safety and inverse)."""
    st = DiskStorage({"data_dir": c.dir})
    rng = c.rng
    cps = list(range(0, 0x300)) if c.n < 4 else [rng.randrange(0, 0x110000) for _ in range(400)]
    seen = {}
    if not hasattr(st, "_sanitize_id") or not hasattr(st, "_restore_id"):
        return
    for cp in cps:
        for s in (chr(cp), "a" + chr(cp), chr(cp) + "2f"):
            f = st._sanitize_id(s)
            expect("/" not in f and "\0" not in f and f, "file name is not safe", id=s, name=f)
            expect(seen.setdefault(f, s) == s, "two ids share a file name", a=s, b=seen[f])
            expect(st._restore_id(f) == s, "file name does not restore to the id", id=s, name=f)
