"""Indices against the exact answer computed from a model of the storage (I01-I08)."""
import random

import numpy as np
from core import case, expect, Fail

from valori.storage import MemoryStorage, DiskStorage, HybridStorage
from valori.indices import FlatIndex, HNSWIndex, IVFIndex, LSHIndex, AnnoyIndex
from valori.exceptions import ValoriError, ValoriIndexError

TOL = 2e-5


def rvec(rng, d, pool):
    r = rng.random()
    if pool and r < 0.2:
        return np.array(rng.choice(pool))
    if r < 0.25:
        return np.zeros(d, dtype=np.float32)
    if r < 0.5:
        return np.array([rng.choice([0.0, 1.0, -1.0, 2.0]) for _ in range(d)], dtype=np.float32)
    if pool and r < 0.6:
        return np.array(rng.choice(pool) * rng.choice([0.5, 2.0, -1.0]))
    return np.array([rng.uniform(-3, 3) for _ in range(d)], dtype=rng.choice([np.float32, np.float32, np.float64]))


def rmeta(rng):
    return rng.choice([None, {}, {"k": rng.randint(0, 99)}, {"a": {"b": [rng.randint(0, 9)]}, "t": "x%d" % rng.randint(0, 99)}])


def true_distance(metric, q, v):
    q, v = np.asarray(q, dtype=np.float64), np.asarray(v, dtype=np.float64)
    if metric == "euclidean":
        return float(np.sqrt(((q - v) ** 2).sum()))
    nq, nv = np.sqrt((q ** 2).sum()), np.sqrt((v ** 2).sum())
    if nq == 0 or nv == 0:
        return 1.0
    return float(1 - (q * v).sum() / (nq * nv))


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(b))


class World:
    """An index with storage, and the model: id -> (vector, metadata)."""

    def __init__(self, c, kind):
        rng = c.rng
        self.c, self.kind, self.rng = c, kind, rng
        self.d = rng.randint(1, 5)
        self.metric = rng.choice(["cosine", "euclidean"])
        conf = {"metric": self.metric}
        if kind == "hnsw":
            conf.update(m=rng.choice([1, 2, 3, 16]), ef_search=rng.choice([1, 2, 50]))
        if kind == "ivf":
            conf.update(n_clusters=rng.choice([1, 2, 3, 4]), n_probes=rng.choice([1, 2, 4, 10]))
        self.conf = conf
        self.ix = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex}[kind](conf)
        sk = rng.random()
        if sk < 0.85:
            self.st = MemoryStorage({})
        elif sk < 0.93:
            self.st = DiskStorage({"data_dir": c.newdir()})
        else:
            self.st = HybridStorage({"memory_limit": 2, "memory": {}, "disk": {"data_dir": c.newdir()}})
        self.st.initialize()
        self.live = {}
        self.gone = []
        self.placed = set()      # inserted or updated after training
        self.pool = []
        for i in range(rng.choice([0, 0, 0, 1, 3, 5])):
            v, m = rvec(rng, self.d, self.pool), rmeta(rng)
            self.st.store_vector("pre%d" % i, v, m)
            self.live["pre%d" % i] = (v.copy(), m)
            self.pool.append(v)
        c.log(kind, conf, "d=%d" % self.d, type(self.st).__name__, "pre=%d" % len(self.live))
        self.ix.initialize(self.st)

    def some_id(self):
        r = self.rng.random()
        if self.live and r < 0.75:
            return self.rng.choice(sorted(self.live))
        if self.gone and r < 0.88:
            return self.rng.choice(self.gone)
        return "absent-%d" % self.rng.randint(0, 3)

    def trained(self):
        return bool(getattr(self.ix, "_trained", False))

    def insert(self):
        rng = self.rng
        n = rng.choice([1, 1, 2, 3, 6])
        vs = np.array([rvec(rng, self.d, self.pool) for _ in range(n)])
        if rng.random() < 0.1:
            vs[0] = 1.0
        r = rng.random()
        md = None if r < 0.25 else [rmeta(rng) for _ in range(n if r < 0.8 else rng.randint(0, n + 1))]
        before = vs.copy()
        was = self.trained()
        ids = self.ix.insert(vs, md)
        self.c.log("insert", n, md, "->", [i[:6] for i in ids])
        if self.c.prop in ("I08", "I02"):
            expect(isinstance(ids, list) and len(ids) == n, "one id per inserted vector", got=ids, n=n)
            expect(len(set(ids)) == n, "inserted ids are not distinct", got=ids)
            expect(not set(ids) & set(self.live), "an inserted id was live before", got=ids)
            expect(np.array_equal(before, vs), "insert modified the caller's array")
        for j, i in enumerate(ids):
            m = md[j] if md and j < len(md) else None
            self.live[i] = (before[j].copy(), m)
            self.pool.append(before[j].copy())
            if was:
                self.placed.add(i)
        if rng.random() < 0.3:          # the caller reuses its buffer
            vs[:] = 7.5

    def delete(self):
        ids = [self.some_id() for _ in range(self.rng.choice([1, 1, 1, 2, 3]))]
        ok, exp = self.ix.delete(list(ids)), True
        for i in ids:
            if i in self.live:
                del self.live[i]
                self.gone.append(i)
                self.placed.discard(i)
            else:
                exp = False
        self.c.log("delete", [i[:6] for i in ids], "->", ok)
        if self.c.prop == "I02":
            expect(ok is exp or ok == exp, "delete reports whether every id was present", got=ok, want=exp, ids=ids)

    def update(self):
        i = self.some_id()
        v, m = rvec(self.rng, self.d, self.pool), rmeta(self.rng)
        ok = self.ix.update(i, v, m)
        self.c.log("update", i[:6], v, m, "->", ok)
        if self.c.prop == "I02":
            expect(bool(ok) == (i in self.live), "update reports whether the id was present", got=ok, id=i)
        if i in self.live:
            self.live[i] = (v.copy(), m)
            self.pool.append(v.copy())
            if self.trained():
                self.placed.add(i)
            if self.rng.random() < 0.3:
                v[:] = -9.25

    def reopen(self):
        self.c.log("close and reopen on the same storage")
        self.ix.close()
        if isinstance(self.st, DiskStorage):
            self.st.close()
            self.st.initialize()
        try:
            self.ix.search(np.ones(self.d, dtype=np.float32), 1)
        except ValoriError:
            pass
        else:
            raise Fail("a closed index answers searches")
        if self.rng.random() < 0.5:
            self.ix = type(self.ix)(self.conf)
        self.ix.initialize(self.st)
        self.placed = set()

    def step(self):
        r = self.rng.random()
        if r < 0.4 or not self.live and r < 0.7:
            self.insert()
        elif r < 0.6:
            self.delete()
        elif r < 0.85:
            self.update()
        elif r < 0.9:
            self.reopen()
        else:
            self.search()

    # ------------------------------------------------------------- searches
    def search(self, k=None, q=None):
        rng = self.rng
        n = len(self.live)
        k = k or rng.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, 100])
        if q is None:
            q = rvec(rng, self.d, self.pool)
        q0 = q.copy()
        res = self.ix.search(q, k)
        self.c.log("search", q0, k, "->", [(r["id"][:6], r["distance"]) for r in res])
        expect(np.array_equal(q, q0), "search modified the query")
        ids = [r["id"] for r in res]
        expect(len(ids) <= k, "more than k results", got=ids, k=k)
        expect(len(set(ids)) == len(ids), "an id is returned twice", got=ids)
        for r in res:
            expect(r["id"] in self.live, "a result is not live", got=r["id"], live=list(self.live))
            v, m = self.live[r["id"]]
            t = true_distance(self.metric, q, v)
            expect(close(float(r["distance"]), t), "wrong distance", id=r["id"], got=r["distance"], want=t, q=q, v=v)
            expect(r["metadata"] == m, "wrong metadata", id=r["id"], got=r["metadata"], want=m)
        ds = [float(r["distance"]) for r in res]
        expect(all(a <= b + 1e-12 for a, b in zip(ds, ds[1:])), "results are not ordered by distance", got=ds)
        exact = self.kind == "flat" or self.kind == "ivf" and (not self.trained() or self.conf["n_probes"] >= self.conf["n_clusters"])
        if exact:
            expect(len(res) == min(k, n), "number of results", got=len(res), want=min(k, n))
            if res:
                worst = ds[-1]
                for i, (v, m) in self.live.items():
                    if i not in ids:
                        t = true_distance(self.metric, q, v)
                        expect(t >= worst - TOL * (1 + abs(worst)), "a closer vector was left out", id=i, distance=t, worst=worst)
        if self.kind == "hnsw":
            expect(not n or len(res) >= 1, "a non-empty index returned nothing", n=n)
        return res

    # ------------------------------------------------------------- structure
    def structure(self):
        P, ix = self.c.prop, self.ix
        if P == "I02":
            if self.kind != "hnsw" and not (self.kind == "ivf" and self.trained() and self.conf["n_probes"] < self.conf["n_clusters"]):
                q = rvec(self.rng, self.d, self.pool)
                ids = {r["id"] for r in ix.search(q, len(self.live) + 5)}
                expect(ids == set(self.live), "the index does not return exactly the live ids", got=sorted(ids), want=sorted(self.live))
            if self.kind == "hnsw" and isinstance(getattr(ix, "vectors", None), dict):
                expect(set(ix.vectors) == set(self.live), "the HNSW index does not hold exactly the live ids", got=sorted(ix.vectors), want=sorted(self.live))
            for i in self.live:
                if self.rng.random() < 0.5:
                    res = ix.search(self.live[i][0], len(self.live))
                    for r in res:
                        t = true_distance(self.metric, self.live[i][0], self.live[r["id"]][0])
                        expect(close(float(r["distance"]), t), "the index compares against an outdated vector", id=r["id"], got=r["distance"], want=t)
                    break
            expect(set(self.st.list_vectors()) == set(self.live), "storage and model differ", got=self.st.list_vectors(), want=list(self.live))
        if P == "I04" and self.kind == "hnsw" and hasattr(ix, "levels"):
            lv = ix.levels
            expect(len(lv) >= 1 and set(lv[0]) == set(self.live), "bottom level differs from the live ids", got=sorted(lv[0]) if lv else None, want=sorted(self.live))
            for l, nodes in enumerate(lv):
                if l:
                    expect(set(nodes) <= set(lv[l - 1]), "a node of level %d is missing below" % l)
                for a, nb in nodes.items():
                    nb = list(nb)
                    expect(a not in nb, "a node is linked to itself", node=a)
                    expect(len(set(nb)) == len(nb), "a node is linked twice", node=a, got=nb)
                    for b in nb:
                        expect(b in nodes, "an edge leads to a missing node", level=l, edge=(a, b))
                        expect(a in nodes[b], "an edge has no opposite", level=l, edge=(a, b))
        if P == "I05" and self.kind == "ivf" and self.trained() and hasattr(ix, "clusters"):
            listed = [i for l in ix.clusters.values() for i in l]
            expect(len(listed) == len(set(listed)), "an id is listed twice in the clusters", got=listed)
            expect(set(listed) == set(self.live), "clusters do not list exactly the live ids", got=sorted(listed), want=sorted(self.live))
            if getattr(ix, "centroids", None) is not None:
                for cid, l in ix.clusters.items():
                    for i in l:
                        if i in self.placed:
                            ds = [true_distance(self.metric, self.live[i][0], x) for x in ix.centroids]
                            expect(ds[int(cid)] <= min(ds) + TOL * (1 + min(ds)), "not in the cluster of the nearest centroid", id=i, cluster=cid, distances=ds)


def world(c, kinds):
    return World(c, c.rng.choice(kinds))


KINDS = {"I01": ["flat"], "I02": ["flat", "hnsw", "ivf"], "I03": ["hnsw"], "I04": ["hnsw"], "I05": ["ivf"], "I08": ["flat", "hnsw", "ivf"]}


@case("I01 I02 I03 I04 I05 I08", weight=3)
def history(c):
    w = world(c, KINDS[c.prop])
    for _ in range(c.rng.choice([2, 4, 8, 14])):
        w.step()
        w.structure()
        if c.prop != "I04" and c.rng.random() < (0.5 if c.prop in ("I01", "I03", "I05") else 0.2):
            w.search()
    if c.prop == "I08":
        for i, (v, m) in w.live.items():
            r = w.st.retrieve_vector(i)
            expect(r is not None and np.array_equal(r[0], v) and r[1] == m, "an id does not denote its vector and metadata", id=i, got=r, want=(v, m))
    w.structure()
    w.search()


@case("I01 I03 I05")
def many(c):
    """Larger contents: result limits matter."""
    w = world(c, KINDS[c.prop])
    for _ in range(c.rng.randint(3, 9)):
        w.insert()
    for k in (1, 2, len(w.live) // 2 or 1, len(w.live), len(w.live) + 3):
        w.search(k)
    if w.live:
        ids = sorted(w.live)
        c.rng.shuffle(ids)
        for i in ids[:c.rng.randint(0, len(ids))]:
            w.ix.delete([i])
            w.live.pop(i)
        for k in (1, 3, len(w.live) + 1):
            w.search(k)
        w.structure()


@case("I01 I02 I03 I05 I08")
def big(c):
    """Contents far beyond k."""
    if c.n % 4:
        return
    w = world(c, KINDS[c.prop])
    for _ in range(c.rng.choice([1, 1, 2])):
        n = c.rng.choice([40, 130, 300] if w.kind == "flat" else [40, 130])
        vs = np.array([[c.rng.gauss(0, 2) for _ in range(w.d)] for _ in range(n)], dtype=np.float32)
        was = w.trained()
        ids = w.ix.insert(vs, None)
        c.log("insert", n)
        for j, i in enumerate(ids):
            w.live[i] = (vs[j].copy(), None)
            w.pool.append(vs[j].copy())
            if was:
                w.placed.add(i)
    w.structure()
    for k in (1, 2, 10, 25):
        w.search(k)
    ids = sorted(w.live)
    c.rng.shuffle(ids)
    for i in ids[:10]:
        w.search(1, w.live[i][0].copy())
    w.ix.delete(ids[:len(ids) // 2])
    for i in ids[:len(ids) // 2]:
        w.live.pop(i)
        w.placed.discard(i)
    w.structure()
    w.search(5)


@case("I01 I02 I03 I05 I08")
def refused(c):
    """Uninitialized indices refuse everything."""
    kind = c.rng.choice(KINDS[c.prop])
    ix = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex}[kind]({"metric": "euclidean"})
    if c.rng.random() < 0.5:
        st = MemoryStorage({})
        st.initialize()
        ix.initialize(st)
        ix.insert(np.ones((2, 3), dtype=np.float32), None)
        ix.close()
    for f in (lambda: ix.search(np.ones(3, dtype=np.float32), 1), lambda: ix.insert(np.ones((1, 3), dtype=np.float32), None),
              lambda: ix.delete(["a"]), lambda: ix.update("a", np.ones(3, dtype=np.float32), None)):
        try:
            f()
        except ValoriIndexError:
            continue
        raise Fail("an uninitialized %s index accepts an operation" % kind)


# ------------------------------------------------------------------ LSH
def lsh_sim(metric, a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if metric == "cosine":
        n = np.sqrt((a * a).sum()) * np.sqrt((b * b).sum())
        return 0.0 if n == 0 else float((a * b).sum() / n)
    if metric == "euclidean":
        return float(1 / (1 + np.sqrt(((a - b) ** 2).sum())))
    return float(1 / (1 + np.abs(a - b).sum()))


class Lsh:
    def __init__(self, c):
        rng = c.rng
        self.c, self.rng = c, rng
        self.d = rng.randint(1, 5)
        self.metric = rng.choice(["cosine", "euclidean", "manhattan"])
        self.conf = {"metric": self.metric, "num_hash_tables": rng.choice([1, 2, 3, 5]), "hash_size": rng.choice([1, 2, 3, 6, 9]),
                     "num_projections": rng.choice([1, 2, 4, 8, 16]), "threshold": rng.choice([-1.0, 0.0, 0.2, 0.5, 0.9]), "random_seed": rng.randint(0, 50)}
        self.ix = LSHIndex(self.conf)
        self.ix.initialize(None)
        self.live, self.used, self.pool = {}, set(), []
        c.log("lsh", self.conf, "d=%d" % self.d)

    def add(self):
        rng = self.rng
        n = rng.choice([1, 2, 4])
        vs = np.array([rvec(rng, self.d, self.pool) for _ in range(n)])
        api = rng.choice(["add", "insert", "insert-none"])
        md = [{"k": rng.randint(0, 99)} for _ in range(n)]
        if api == "add":
            ids = self.ix.add(vs, md)
        elif api == "insert":
            ids = self.ix.insert(vs, md)
        else:
            ids, md = self.ix.insert(vs), [{} for _ in range(n)]
        self.c.log(api, n, "->", ids)
        expect(len(ids) == n and len({int(i) for i in ids}) == n, "one distinct id per vector", got=ids)
        expect(not {int(i) for i in ids} & set(self.live), "an id was live before", got=ids)
        for j, i in enumerate(ids):
            self.live[int(i)] = (vs[j].copy(), dict(md[j]))
            self.pool.append(vs[j].copy())
        if rng.random() < 0.5:
            vs[:] = 3.5
            for m in md:
                m["k"] = "changed"

    def rejected(self):
        rng = self.rng
        if not self.live:
            return
        bad = rng.choice(["dim", "len", "nan", "upd"])
        before = self.snapshot()
        try:
            if bad == "dim":
                self.ix.add(np.ones((2, self.d + 1), dtype=np.float32), [{}, {}])
            elif bad == "len":
                self.ix.add(np.ones((2, self.d), dtype=np.float32), [{}])
            elif bad == "nan":
                v = np.ones((3, self.d), dtype=np.float32)
                v[rng.randint(0, 2), 0] = rng.choice([np.nan, np.inf])
                self.ix.add(v, [{}, {}, {}])
            else:
                i = rng.choice(sorted(self.live))
                v = rng.choice([np.ones(self.d + 1, dtype=np.float32), np.full(self.d, np.nan, dtype=np.float32)])
                if self.ix.update(str(i), v, {"z": 1}):
                    raise Fail("an invalid update is accepted", v=v)
                raise ValoriIndexError("rejected")
        except ValoriError:
            expect(self.snapshot() == before, "a rejected call changed the index", call=bad)
        else:
            raise Fail("an invalid call is accepted", call=bad)

    def snapshot(self):
        ix = self.ix
        return ([None if v is None else np.asarray(v).tobytes() for v in getattr(ix, "vectors", [])], repr(getattr(ix, "metadata", None)),
                [sorted((h, tuple(b)) for h, b in t.items() if b) for t in getattr(ix, "hash_tables", [])], ix.get_stats()["num_vectors"])

    def remove(self):
        rng = self.rng
        ids = [rng.choice(sorted(self.live)) if self.live and rng.random() < 0.8 else rng.randint(-2, 60) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.5:
            self.ix.remove(list(ids))
        else:
            self.ix.delete([str(i) for i in ids])
        self.c.log("remove", ids)
        for i in ids:
            self.live.pop(i, None)

    def update(self):
        rng = self.rng
        i = rng.choice(sorted(self.live)) if self.live and rng.random() < 0.8 else rng.randint(-2, 60)
        v = rvec(rng, self.d, self.pool)
        m = rng.choice([None, {"u": rng.randint(0, 99)}])
        ok = self.ix.update(str(i), v, m)
        self.c.log("update", i, v, m, "->", ok)
        expect(bool(ok) == (i in self.live), "update reports whether the id was live", id=i, got=ok)
        if i in self.live:
            self.live[i] = (v.copy(), dict(m) if m is not None else self.live[i][1])
            if rng.random() < 0.5:
                v[:] = -8.5
                if m:
                    m["u"] = "changed"

    def tables(self):
        ix = self.ix
        expect(ix.get_stats()["num_vectors"] == len(self.live), "number of vectors", got=ix.get_stats()["num_vectors"], want=len(self.live))
        if not hasattr(ix, "hash_tables") or not hasattr(ix, "_hash_vector"):
            return
        hs = {i: ix._hash_vector(v) for i, (v, m) in self.live.items()}
        for t, table in enumerate(ix.hash_tables):
            got = sorted((i, h) for h, b in table.items() for i in b)
            want = sorted((i, hs[i][t]) for i in self.live)
            expect(got == want, "hash table %d" % t, got=got, want=want)

    def search(self):
        rng, ix = self.rng, self.ix
        q = rvec(rng, self.d, self.pool)
        k = rng.choice([1, 2, 3, 50])
        th = rng.choice([None, None, -1.0, 0.0, 0.3, 0.8])
        res = ix.search(q, k) if th is None else ix.search(q, k, th)
        th = self.conf["threshold"] if th is None else th
        self.c.log("search", q, k, th, "->", [(r["id"], r["distance"]) for r in res])
        ids = [int(r["id"]) for r in res]
        expect(len(ids) <= k and len(set(ids)) == len(ids), "at most k distinct results", got=ids, k=k)
        ds = [float(r["distance"]) for r in res]
        expect(all(a >= b - 1e-12 for a, b in zip(ds, ds[1:])), "results are not ordered by similarity", got=ds)
        for r in res:
            expect(int(r["id"]) in self.live, "a result is not live", id=r["id"])
            v, m = self.live[int(r["id"])]
            t = lsh_sim(self.metric, q, v)
            expect(close(float(r["distance"]), t), "wrong similarity", id=r["id"], got=r["distance"], want=t)
            expect(float(r["distance"]) >= th, "a result is below the threshold", got=r["distance"], threshold=th)
            expect(r["metadata"] == m, "wrong metadata", id=r["id"], got=r["metadata"], want=m)
        if hasattr(ix, "_hash_vector") and getattr(ix, "dimension", None):
            hq = ix._hash_vector(q)
            for i, (v, m) in self.live.items():
                if i in ids or not any(a == b for a, b in zip(ix._hash_vector(v), hq)):
                    continue
                t = lsh_sim(self.metric, q, v)
                if t >= th + TOL * (1 + abs(th)):
                    expect(len(res) >= k, "a bucket neighbour is left out although fewer than k are returned", id=i, similarity=t)
                    expect(t <= ds[-1] + TOL * (1 + abs(ds[-1])), "a more similar bucket neighbour is left out", id=i, similarity=t, worst=ds[-1])


@case("I06 I08", weight=2)
def lsh_history(c):
    w = Lsh(c)
    for _ in range(c.rng.choice([3, 6, 12])):
        r = c.rng.random()
        if r < 0.4:
            w.add()
        elif r < 0.55:
            w.remove()
        elif r < 0.75:
            w.update()
        elif r < 0.82 and c.prop == "I06":
            w.rejected()
        elif r < 0.85:
            w.ix.clear()
            w.live.clear()
            c.log("clear")
        else:
            w.search()
        if c.prop == "I06":
            w.tables()
            w.search()
    if c.prop == "I08":
        for i, (v, m) in w.live.items():
            expect(np.array_equal(w.ix.vectors[i], v) and w.ix.metadata[i] == m, "an id does not denote its vector and metadata", id=i)


# ------------------------------------------------------------------ Annoy
class Ann:
    def __init__(self, c):
        rng = c.rng
        self.c, self.rng = c, rng
        self.d = rng.randint(1, 5)
        self.conf = {"metric": rng.choice(["angular", "euclidean", "manhattan", "dot"]), "num_trees": rng.choice([1, 3, 10]),
                     "build_on_disk": rng.random() < 0.1}
        self.ix = AnnoyIndex(self.conf)
        self.ix.initialize()
        self.live, self.pool, self.built = {}, [], False
        c.log("annoy", self.conf, "d=%d" % self.d)

    def add(self):
        rng = self.rng
        n = rng.choice([1, 2, 5])
        vs = np.array([rvec(rng, self.d, self.pool) for _ in range(n)])
        md = [{"k": rng.randint(0, 99)} for _ in range(n)]
        api = rng.choice(["add", "insert", "none"])
        before = self.snapshot()
        try:
            if api == "add":
                ids = self.ix.add(vs, md)
            elif api == "insert":
                ids = self.ix.insert(vs, md)
            else:
                ids, md = self.ix.insert(vs), [{} for _ in range(n)]
        except Exception as e:
            expect(self.built, "an add before the build is rejected", error=e)
            expect(self.snapshot() == before, "a rejected add changed the index")
            self.c.log(api, "rejected")
            return
        self.c.log(api, n, "->", ids)
        expect(len(ids) == n and len({int(i) for i in ids}) == n and not {int(i) for i in ids} & set(self.live), "n fresh ids", got=ids)
        for j, i in enumerate(ids):
            self.live[int(i)] = (vs[j].copy(), dict(md[j]))
            self.pool.append(vs[j].copy())
        if rng.random() < 0.5:
            vs[:] = 2.5
            for m in md:
                m["k"] = "changed"

    def snapshot(self):
        ix = self.ix
        return ([None if v is None else np.asarray(v).tobytes() for v in getattr(ix, "vectors", [])], repr(getattr(ix, "metadata", None)),
                {k: v for k, v in ix.get_stats().items()}, getattr(ix, "_next_id", None))

    def update(self):
        rng = self.rng
        i = rng.choice(sorted(self.live)) if self.live and rng.random() < 0.8 else rng.randint(-2, 40)
        v, m = rvec(rng, self.d, self.pool), rng.choice([None, {"u": rng.randint(0, 99)}])
        before = self.snapshot()
        try:
            ok = self.ix.update(str(i), v, m)
        except ValoriError:
            self.c.log("update", i, "rejected")
            expect(i not in self.live or self.built, "update of a live id before the build is rejected", id=i)
            expect(self.snapshot() == before, "a rejected update changed the index", id=i)
            return
        self.c.log("update", i, v, m, "->", ok)
        expect(i in self.live and ok, "update of an id that is not live succeeds", id=i)
        self.live[i] = (v.copy(), dict(m) if m is not None else self.live[i][1])

    def rejected(self):
        before = self.snapshot()
        bad = self.rng.choice(["dim", "len", "nan", "id"])
        if not self.live:
            return
        try:
            if bad == "dim":
                self.ix.add(np.ones((1, self.d + 1), dtype=np.float32), [{}])
            elif bad == "len":
                self.ix.add(np.ones((1, self.d), dtype=np.float32), [])
            elif bad == "nan":
                v = np.ones((3, self.d), dtype=np.float32)
                v[2, 0] = np.nan
                self.ix.add(v, [{}, {}, {}])
            else:
                self.ix.update("999", np.ones(self.d, dtype=np.float32), {})
        except Exception:
            expect(self.snapshot() == before, "a rejected call changed the index", call=bad)
        else:
            raise Fail("an invalid call is accepted", call=bad)

    def remove(self):
        ids = [self.rng.choice(sorted(self.live)) if self.live and self.rng.random() < 0.8 else self.rng.randint(-2, 40) for _ in range(self.rng.choice([1, 2]))]
        if self.rng.random() < 0.5:
            self.ix.remove(ids)
        else:
            self.ix.delete([str(i) for i in ids])
        self.c.log("remove", ids)
        for i in ids:
            self.live.pop(i, None)

    def items(self):
        """Registered in the search structure under the same id."""
        a = getattr(self.ix, "_annoy_index", None)
        if a is None or not hasattr(a, "get_item_vector"):
            return
        for i, (v, m) in self.live.items():
            got = np.array(a.get_item_vector(i), dtype=np.float32)
            expect(np.allclose(got, v.astype(np.float32), rtol=1e-5, atol=1e-6), "the search structure holds another vector under an id", id=i, got=got, want=v)

    def search(self):
        rng = self.rng
        q, k = rvec(rng, self.d, self.pool), rng.choice([1, 2, 5, 40])
        try:
            res = self.ix.search(q, k)
        except ValoriError:
            expect(not self.built, "search of a built index is rejected")
            return
        self.c.log("search", q, k, "->", [(r["id"], r["distance"]) for r in res])
        ids = [int(r["id"]) for r in res]
        expect(self.built, "search before the build is accepted")
        expect(len(ids) <= k and len(set(ids)) == len(ids), "at most k distinct results", got=ids, k=k)
        for r in res:
            expect(int(r["id"]) in self.live, "a removed or unknown id is returned", id=r["id"], live=sorted(self.live))
            expect(r["metadata"] == self.live[int(r["id"])][1], "wrong metadata", id=r["id"], got=r["metadata"], want=self.live[int(r["id"])][1])
        if self.conf["metric"] in ("euclidean", "manhattan"):
            for r in res:
                t = lsh_sim(self.conf["metric"], q, self.live[int(r["id"])][0])
                expect(abs(r["distance"] - t) < 1e-4, "a result carries the distance of another vector", id=r["id"], got=r["distance"], want=t)


@case("I07 I08", weight=2)
def annoy_history(c):
    w = Ann(c)
    try:
        for _ in range(c.rng.choice([3, 6, 10])):
            r = c.rng.random()
            if r < 0.4:
                w.add()
            elif r < 0.55:
                w.update()
            elif r < 0.7:
                w.remove()
            elif r < 0.78:
                w.rejected()
            elif r < 0.8 and not w.conf["build_on_disk"]:
                w.ix.clear()
                w.live.clear()
                w.built = False
                c.log("clear")
            elif r < 0.9 and w.live and not w.built:
                w.ix.build()
                w.built = True
                c.log("build")
            else:
                w.search()
            if c.prop == "I07":
                w.items()
        if not w.built and w.live:
            w.ix.build()
            w.built = True
        if w.live:
            w.search()
            w.search()
        if c.prop == "I08":
            for i, (v, m) in w.live.items():
                expect(np.array_equal(w.ix.vectors[i], v) and w.ix.metadata[i] == m, "an id does not denote its vector and metadata", id=i)
    finally:
        w.ix.close()
