"""U01, U02, U04, F01 on the real helpers."""
import copy
import json
import math
import threading
import time
import numpy as np
from core import case, expect
from valori.exceptions import ValidationError
from valori.utils import validation as val
from valori.utils import similarity as sim
from valori.utils.batch_manager import BatchManager
from valori.utils.helpers import get_recommended_index_config
from valori import factory, configs
from valori.indices.base import Index
from valori.storage.base import StorageBackend
from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
from valori.storage import DiskStorage, HybridStorage, MemoryStorage


# ------------------------------------------------------------------ U01
def verdict(f, ok, *a, **kw):
    """ok: does the documented condition hold?"""
    try:
        r = f(*a, **kw)
    except ValidationError:
        expect(not ok, "%s rejects a valid argument" % f.__name__, args=a, kw=kw)
        return
    except Exception as e:
        expect(False, "%s raises %s instead of the validation error" % (f.__name__, type(e).__name__), args=a, kw=kw, error=str(e))
    expect(ok, "%s accepts an invalid argument" % f.__name__, args=a, kw=kw)
    expect(r is True, "%s does not return True" % f.__name__, result=r)


JUNK = [None, 3, "x", [1.0, 2.0], (1,), {}, object(), 2.5, b"ab"]


def some_array(rng, nd):
    shape = tuple(rng.choice([0, 1, 1, 2, 3, 4]) for _ in range(nd))
    dt = rng.choice(["float32", "float64", "float64", "int64", "bool", "complex64", "object", "U3", "uint8"])
    a = np.array([rng.choice([0, 0, 1, 2, -3]) for _ in range(int(np.prod(shape, dtype=int)))]).reshape(shape)
    try:
        a = a.astype(dt)
    except (TypeError, ValueError):
        a = a.astype("float64")
    if a.size and a.dtype.kind in "fc" and rng.random() < .35:
        for _ in range(rng.choice([1, 1, 2])):
            a.flat[rng.randrange(a.size)] = rng.choice([np.nan, np.inf, -np.inf])
    return a


def numeric(a):
    return a.dtype.kind in "biufc"


def finite(a):
    return all(np.isfinite(complex(x).real) and np.isfinite(complex(x).imag) for x in a.flat)


@case("U01", weight=2)
def vectors(c):
    rng = c.rng
    lo, hi = rng.choice([None, None, 0, 1, 2, 3]), rng.choice([None, None, 1, 2, 3, 4])
    dt = rng.choice([None, None, None, np.dtype("float64"), np.float32, "float64", np.dtype("int64")])
    az = rng.random() < .6
    for f, nd in ((val.validate_vector, 1), (val.validate_vectors, 2)):
        if rng.random() < .1:
            verdict(f, False, rng.choice(JUNK))
            continue
        a = some_array(rng, rng.choice([nd, nd, nd, nd, 0, 1, 2, 3]))
        ok = a.ndim == nd and 0 not in a.shape
        if ok:
            d = a.shape[-1]
            ok = (lo is None or d >= lo) and (hi is None or d <= hi) and (dt is None or a.dtype == dt) and numeric(a) and finite(a)
            if ok and not az:
                ok = all(any(complex(x) != 0 for x in row) for row in np.atleast_2d(a))
        before = a.copy()
        kw = {"min_dim": lo, "max_dim": hi, "dtype": dt, "allow_zero": az}
        verdict(f, ok, a, **kw)
        expect(a.dtype == before.dtype and a.tobytes() == before.tobytes() or a.dtype == object, "%s changes its argument" % f.__name__)


@case("U01")
def config_values(c):
    rng = c.rng
    names = ["a", "b", "c", "dd", ""]
    value = lambda: rng.choice([0, 1, -1, 5, 2.5, "x", "", None, [], True, (1,), {"k": 1}])
    cfg = {k: value() for k in names if rng.random() < .5}
    if rng.random() < .1:
        verdict(val.validate_config, False, rng.choice([None, 3, "x", [1], ("a",)]))
        return
    sub = lambda: rng.choice([None, [k for k in names if rng.random() < .5]])
    req, alw = sub(), sub()
    typ = rng.choice([None, {k: rng.choice([int, str, float, list, dict, (int, float)]) for k in names if rng.random() < .5}])
    ran = rng.choice([None, {k: rng.choice([(0, 1), (-1, 5), (2.5, 3), (1, 0)]) for k in names if rng.random() < .5}])
    ok = all(k in cfg for k in req or []) and (alw is None or all(k in alw for k in cfg))
    ok = ok and all(isinstance(cfg[k], t) for k, t in (typ or {}).items() if k in cfg)
    ok = ok and all(lo <= cfg[k] <= hi for k, (lo, hi) in (ran or {}).items() if k in cfg and isinstance(cfg[k], (int, float)))
    before = copy.deepcopy(cfg)
    verdict(val.validate_config, ok, cfg, required_keys=req, allowed_keys=alw, value_types=typ, value_ranges=ran)
    expect(cfg == before, "validate_config changes its argument")


@case("U01")
def ids_and_names(c):
    rng = c.rng
    m = rng.choice(["cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard", "Cosine", "cos", "", "l2", "angular", "jaccard "] + JUNK)
    verdict(val.validate_metric, isinstance(m, str) and m in ("cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"), m)
    k, mk = rng.choice([0, 1, 2, 10, -1, 10 ** 9, 1.0, "1", None, np.float32(2)]), rng.choice([None, None, 0, 1, 2, 10])
    verdict(val.validate_k, isinstance(k, int) and k > 0 and (mk is None or k <= mk), k, mk)
    one = lambda: rng.choice(["a", "b", " x ", "a ", "0", 0, 1, 2, -5, 10 ** 20] + ["", " ", "\t\n", "\u00a0", None, 1.5, ("a",), ["a"], b"a"] * (rng.random() < .3))
    i = one()
    good = lambda x: isinstance(x, (str, int)) and (not isinstance(x, str) or x.strip() != "")
    verdict(val.validate_id, good(i), i)
    ids = [one() for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    verdict(val.validate_ids, len(ids) > 0 and all(good(x) for x in ids) and len(set(ids)) == len(ids) if all(good(x) for x in ids) else False, ids)
    verdict(val.validate_ids, False, rng.choice([None, "ab", ("a",), {"a": 1}, {"a"}, 3]))


def nested(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


@case("U01")
def metadata(c):
    rng = c.rng
    good = [1, "x", None, 2.5, True, [1, [2, {"a": None}]], {"k": {"j": []}}, (1, 2), float("nan"), "\u00e9"]
    cyc = []
    cyc.append(cyc)
    bad = [object(), {1, 2}, b"x", np.float32(1), np.int64(2), np.array([1]), cyc, {"a": object()}, [set()], 1j, {("a",): 1}, nested(100000) if rng.random() < .05 else object()]
    verdict(val.validate_metadata, True, None)
    verdict(val.validate_metadata, False, rng.choice([3, "x", [("a", 1)], (1,), {"a"}, 1.5]))
    m, ok = {}, True
    for j in range(rng.choice([0, 1, 2, 4])):
        bk, bv = rng.random() < .1, rng.random() < .15
        m[rng.choice([1, None, ("a",), 2.5, True]) if bk else "k%d" % j] = rng.choice(bad) if bv else rng.choice(good)
        ok = ok and not bk and not bv
    ok = all(isinstance(k, str) for k in m) and ok
    verdict(val.validate_metadata, ok, m)


# ------------------------------------------------------------------ U02
def vec(rng, n):
    k = rng.random()
    if k < .15:
        return np.zeros(n)
    if k < .3:
        return np.array([float(rng.choice([0, 1])) for _ in range(n)])
    return np.array([rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), 1e-3, -7.25]) for _ in range(n)]).astype(rng.choice(["float64", "float32"]))


def ref(a, b):
    a, b = [float(x) for x in a], [float(x) for x in b]
    dot = math.fsum(x * y for x, y in zip(a, b))
    na, nb = math.sqrt(math.fsum(x * x for x in a)), math.sqrt(math.fsum(x * x for x in b))
    d = [abs(x - y) for x, y in zip(a, b)]
    cos = dot / (na * nb) if na and nb else 0.0
    inter, uni = sum(x > 0 and y > 0 for x, y in zip(a, b)), sum(x > 0 or y > 0 for x, y in zip(a, b))
    jac = inter / uni if uni else 1.0
    e2 = math.fsum(x * x for x in d)
    return {"cosine_similarity": cos, "cosine_distance": 1 - cos, "euclidean_distance": math.sqrt(e2), "euclidean_distance_squared": e2,
            "dot_product": dot, "manhattan_distance": math.fsum(d), "chebyshev_distance": max(d, default=None),
            "hamming_distance": sum((x > 0) != (y > 0) for x, y in zip(a, b)), "jaccard_similarity": jac, "jaccard_distance": 1 - jac}


def close(x, y, a, b):
    s = 1 + float(np.sum(np.abs(a)) * (1 + np.sum(np.abs(b)))) + float(np.sum(np.abs(b))) ** 2
    return abs(float(x) - y) <= 2e-5 * s


@case("U02", weight=3)
def pairs(c):
    rng = c.rng
    n = rng.choice([1, 1, 2, 3, 5, 17])
    a, b = vec(rng, n), vec(rng, n)
    if rng.random() < .15:
        b = a.copy()
    if rng.random() < .1:
        b = -a
    want = ref(a, b)
    for name, w in want.items():
        f = getattr(sim, name)
        a0, b0 = a.copy(), b.copy()
        r, q = f(a, b), f(b, a)
        expect(close(r, w, a, b), "%s is not the defined quantity" % name, a=a, b=b, got=r, want=w)
        expect(close(q, w, a, b), "%s is not symmetric" % name, a=a, b=b, got=q, want=w)
        expect(np.array_equal(a, a0) and np.array_equal(b, b0), "%s changes an argument" % name)
        if name == "cosine_similarity":
            expect(-1 <= float(r) <= 1, "cosine_similarity out of [-1, 1]", a=a, b=b, got=float(r))
        if name == "jaccard_similarity":
            expect(0 <= r <= 1, "jaccard_similarity out of [0, 1]", a=a, b=b, got=r)
        for x, y in ((a, vec(rng, n + 1)), (a.reshape(1, n), b), (a, b.reshape(n, 1)), (a.reshape(1, n), b.reshape(1, n))):
            try:
                r = f(x, y)
            except ValueError:
                continue
            expect(False, "%s accepts arrays of shapes %s and %s" % (name, x.shape, y.shape))


@case("U02")
def batch(c):
    rng = c.rng
    n, p, q = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4]), rng.choice([1, 3, 5])
    A, Bm = np.array([vec(rng, n) for _ in range(p)]), np.array([vec(rng, n) for _ in range(q)])
    r = sim.batch_cosine_similarity(A, Bm)
    expect(r.shape == (p, q), "batch similarity has the wrong shape", shape=r.shape)
    for i in range(p):
        for j in range(q):
            w = ref(A[i], Bm[j])["cosine_similarity"]
            expect(close(r[i, j], w, A[i], Bm[j]), "batch similarity entry is not the similarity of the pair", i=i, j=j, got=r[i, j], want=w)
            expect(-1 <= r[i, j] <= 1, "batch similarity out of range", got=r[i, j])
    for x, y in ((A, np.zeros((q, n + 1))), (A[0], Bm), (A, Bm[0])):
        try:
            sim.batch_cosine_similarity(x, y)
        except ValueError:
            continue
        expect(False, "batch similarity accepts shapes %s and %s" % (x.shape, y.shape))


@case("U02")
def normalizing(c):
    rng = c.rng
    v = vec(rng, rng.choice([1, 2, 3, 9]))
    if rng.random() < .2:
        v = -np.abs(v)
    for norm in ("l2", "l1", "max"):
        v0 = v.copy()
        r = sim.normalize_vector(v, norm)
        expect(np.array_equal(v, v0), "normalize_vector changes its argument")
        w = [float(x) for x in v]
        s = {"l2": math.sqrt(math.fsum(x * x for x in w)), "l1": math.fsum(abs(x) for x in w), "max": max(abs(x) for x in w)}[norm]
        expect(np.allclose(np.asarray(r, float), np.array(w) / s if s else w, atol=1e-5), "normalize_vector(%s) is wrong" % norm, v=v, got=r)
        r[...] = 77
        expect(np.array_equal(v, v0), "normalize_vector returns its argument")
    for bad in ("L2", "", "inf", "l3"):
        try:
            sim.normalize_vector(v, bad)
        except ValueError:
            continue
        expect(False, "normalize_vector accepts the norm %r" % bad)


# ------------------------------------------------------------------ U04
class Client:
    """Records the batches; the ids of a vector name its content; fails for marked batches."""

    def __init__(self, fail, delay=None, error=RuntimeError("batch refused")):
        self.fail, self.delay, self.got, self.lock = fail, delay or (lambda v: 0), [], threading.Lock()
        self.error = error

    def insert(self, vectors, metadata=None):
        vs = [tuple(float(x) for x in v) for v in vectors]
        time.sleep(self.delay(vs))
        with self.lock:
            self.got.append((vs, list(metadata)))
        if any(v[0] in self.fail for v in vs):
            raise self.error
        return ["id%g" % v[0] for v in vs]


@case("U04", weight=2)
def batches(c):
    rng = c.rng
    size = rng.choice([1, 2, 3, 5, 7])
    bm = BatchManager(batch_size=size, max_workers=rng.choice([1, 2, 4]))
    seen = []
    errs = []
    if rng.random() < .5:
        bm.set_error_callback(lambda e, b: errs.append(e))
    if rng.random() < .3:
        bm.set_progress_callback(lambda p, t: seen.append((p, t)))
    for run in range(rng.choice([1, 2, 3])):
        n = rng.choice([0, 1, 2, size, size + 1, 2 * size, 13])
        V = np.array([[float(i + 100 * run), rng.random()] for i in range(n)]).reshape(n, 2)
        M = [{"i": i, "run": run} for i in range(n)]
        fail = {float(100 * run + i) for i in range(n) if rng.random() < .15}
        par = rng.random() < .5
        cl = Client(fail, (lambda vs: rng.random() * .004) if par else None,
                    rng.choice([RuntimeError("batch refused"), RuntimeError(), ValueError(""), KeyError(0), StopIteration(), TimeoutError("late")]))
        V0, M0 = V.copy(), copy.deepcopy(M)
        f = bm.parallel_batch_insert if par else bm.batch_insert
        c.log("parallel" if par else "sequential", "size", size, "n", n, "fail", sorted(fail))
        ids = f(cl, V, M, show_progress=rng.random() < .2)
        expect(np.array_equal(V, V0) and M == M0, "batch insertion changes its arguments")
        want = [(list(range(a, min(a + size, n)))) for a in range(0, n, size)]
        got = cl.got if not par else sorted(cl.got, key=lambda g: g[0][0][0])
        exp = [([tuple(V0[i]) for i in w], [M0[i] for i in w]) for w in want]
        flat = [(v, m) for g in got for v, m in zip(*g)]
        expect(all(len(g[0]) == len(g[1]) and len(g[0]) <= size for g in got), "a batch is too large or its metadata do not match", got=got)
        expect(flat == [(v, m) for e in exp for v, m in zip(*e)], "vectors are not passed exactly once with their metadata, in order", got=got, want=exp)
        okb = [g for g in got if not any(v[0] in fail for v in g[0])]
        wid = ["id%g" % v[0] for g in okb for v in g[0]]
        expect(list(ids) == wid, "returned ids are not those of the successful batches in input order", got=ids, want=wid, parallel=par)
        s = bm.get_stats()
        bad = n - len(wid)
        expect((s["total_items"], s["processed_items"], s["failed_items"]) == (n, len(wid), bad), "statistics do not describe this run", stats=s, want=(n, len(wid), bad))


# ------------------------------------------------------------------ F01
KINDS = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}
STORES = {"memory": MemoryStorage, "disk": DiskStorage, "hybrid": HybridStorage}


def part(cl, base):
    """The component of the client of the given base class, wherever it is kept."""
    found = [v for v in vars(cl).values() if isinstance(v, base)]
    expect(len(found) == 1, "client without its component", base=base.__name__)
    return found[0]


def usable(idx):
    st = MemoryStorage({})
    st.initialize()
    idx.initialize(st)
    V = np.random.RandomState(1).randn(30, 6).astype(np.float32)
    ids = idx.insert(V, [{"i": i} for i in range(30)])
    expect(len(ids) == 30, "the recommended index does not take vectors")
    if hasattr(idx, "build"):
        idx.build()
    idx.search(V[0], 3)


@case("F01", weight=2)
def recommendations(c):
    rng = c.rng
    n = rng.choice([None, 0, 1, 10, 999, 1000, 1001, 50000, 99999, 100000, 100001, 10 ** 7, rng.randrange(0, 3 * 10 ** 5)])
    d = rng.choice([None, 1, 128, 384, 385, 768, 769, 1000, 1001, 4096])
    uc = rng.choice(["speed", "accuracy", "memory", "balanced", "", "real-time", "nonsense"])
    r = get_recommended_index_config(n, d, uc)
    expect(r["type"] in KINDS, "recommended kind unknown to the factory", kind=r["type"])
    idx = factory._create_index(r["type"], r["config"]) if hasattr(factory, "_create_index") else KINDS[r["type"]](r["config"])
    expect(type(idx) is KINDS[r["type"]], "wrong kind built")
    if rng.random() < .2 or r["type"] == "flat":
        if r["type"] == "ivf":
            expect(r["config"]["n_clusters"] >= 1, "no clusters recommended")
        else:
            usable(idx)
    r2 = get_recommended_index_config(n, d, uc)
    r2["config"]["metric"] = "spoilt"
    expect(get_recommended_index_config(n, d, uc) == r, "changing a recommendation changes later ones")
    if n is not None and d is not None:
        q = configs.get_recommended_config(n, d, uc, rng.choice(["memory", "disk", "hybrid"]))
        expect(q["index"]["type"] in KINDS, "recommended kind unknown to the factory", kind=q["index"]["type"])
        expect(q["storage"]["type"] in STORES, "recommended storage unknown to the factory")
        st = MemoryStorage({})
        st.initialize()
        KINDS[q["index"]["type"]](copy.deepcopy(q["index"]["config"])).initialize(st)


@case("F01", weight=2)
def objects(c):
    rng = c.rng
    kind = rng.choice(sorted(KINDS))
    conf = {"metric": rng.choice({"annoy": ["angular", "euclidean"], "lsh": ["cosine", "euclidean"]}.get(kind, ["cosine", "euclidean"])), "marker": rng.random()}
    if kind == "ivf":
        conf["n_clusters"] = rng.choice([2, 7])
    sk = rng.choice(["memory", "memory", "disk", "hybrid"])
    sconf = {"data_dir": c.newdir(), "disk": {"data_dir": c.newdir()}, "marker": rng.random()}
    k0, s0 = copy.deepcopy(conf), copy.deepcopy(sconf)
    cl = factory.create_vector_db(index_type=kind, storage_type=sk, index_config=conf, storage_config=sconf)
    ix, st = part(cl, Index), part(cl, StorageBackend)
    expect(type(ix) is KINDS[kind], "wrong index kind", got=type(ix).__name__, want=kind)
    expect(type(st) is STORES[sk], "wrong storage kind", got=type(st).__name__, want=sk)
    expect(ix.config == k0 and st.config == s0 and conf == k0 and sconf == s0, "not the configuration given", index=ix.config, storage=st.config)
    if "n_clusters" in conf:
        expect(ix.n_clusters == conf["n_clusters"], "configuration not used")
    expect(ix.metric == conf["metric"], "configured metric not used", got=ix.metric, want=conf["metric"])
    cl.insert(np.array([[1.0, 0, 0], [0, 1, 0]], dtype=np.float32), [{}, {}])
    cl.close()
    for kw in ({"index_type": rng.choice(["Flat", "faiss", "hnsw "])}, {"index_type": "flat", "storage_type": rng.choice(["Memory", "", "s3"])}):
        try:
            factory.create_vector_db(**kw)
        except ValueError:
            continue
        expect(False, "unknown name accepted", **kw)


@case("F01")
def templates(c):
    rng = c.rng
    before = copy.deepcopy(factory.TEMPLATES)
    t = rng.choice(sorted(factory.TEMPLATES))
    over = {}
    if rng.random() < .6 or factory.TEMPLATES[t].get("storage_type") != "memory":
        over["storage_type"] = "memory"
    if rng.random() < .4:
        over["index_type"] = rng.choice(["flat", "hnsw"])
        over["index_config"] = {"metric": "euclidean"}
    cl = factory.create_from_template(t, **copy.deepcopy(over))
    ix, st = part(cl, Index), part(cl, StorageBackend)
    want = dict(before[t], **over)
    expect(type(ix) is KINDS[want["index_type"]] and type(st) is STORES[want["storage_type"]], "template or override not used", template=t, over=over)
    expect(ix.config == want.get("index_config", {}), "configuration is not template plus override", got=ix.config, want=want)
    cl.insert(np.array([[1.0, 0, 0], [0, 1, 0]], dtype=np.float32), [{}, {}]) if want["index_type"] not in ("ivf",) else None
    cl.close()
    expect(factory.TEMPLATES == before, "the template was changed", template=t)
    try:
        factory.create_from_template("no such template")
    except ValueError:
        return
    expect(False, "unknown template accepted")
