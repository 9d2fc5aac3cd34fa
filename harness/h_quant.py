"""Q01-Q05 on the real quantizers."""
import copy
import warnings
import numpy as np
from core import case, expect
from valori.exceptions import QuantizationError
from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer

warnings.filterwarnings("ignore")


def matrix(rng, n, d, style=None):
    style = style or rng.choice(["gauss", "gauss", "ints", "const", "mixed", "tight", "skew"])
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if style == "gauss":
        a = r.randn(n, d) * rng.choice([1e-2, 1.0, 50.0]) + rng.choice([0, 0, 100.0, -3])
    elif style == "ints":
        a = r.randint(-4, 5, size=(n, d)).astype(float)
    elif style == "const":
        a = np.tile(r.randn(1, d), (n, 1))
    elif style == "tight":
        a = r.randn(n, d) * 1e-5 + 1.0
    elif style == "skew":
        a = r.randn(n, d) * (10.0 ** -np.arange(d))
    else:
        a = r.randn(n, d)
        a[:, rng.randrange(d)] = rng.choice([0.0, 2.5])
        if rng.random() < .5:
            a[:, rng.randrange(d)] *= 1000
    return a.astype(rng.choice(["float64", "float64", "float32"]))


def some(xs, rng):
    """Quantizer calls get the arrays in the layouts callers use."""
    k = rng.randrange(4)
    if k == 1:
        return np.asfortranarray(xs)
    if k == 2:
        return np.concatenate([xs, xs], axis=0)[::2] if len(xs) == 1 else xs
    return xs


# ------------------------------------------------------------------ Q01
@case("Q01", weight=3)
def scalar(c):
    rng = c.rng
    bits = rng.choice([1, 1, 2, 3, 4, 7, 8, 8, 8, 9, 12, 15, 16])
    q = ScalarQuantizer({"bits": bits})
    q.initialize()
    top = 2 ** bits - 1
    for round_ in range(rng.choice([1, 1, 2])):
        d = rng.choice([1, 1, 2, 3, 5, 17])
        x = matrix(rng, rng.choice([1, 2, 3, 8, 40]), d)
        q.train(x)
        lo, hi = x.min(axis=0).astype(float), x.max(axis=0).astype(float)
        step = (hi - lo) / top
        c.log("bits", bits, "train", x.shape, x.dtype, "lo", lo[:3], "hi", hi[:3])
        u = np.random.RandomState(rng.randrange(2 ** 31)).rand(rng.choice([1, 2, 9, 30]), d)
        if rng.random() < .4:
            u = np.rint(u * top * 2) / (2 * top)          # rounding ties
        inside = lo + u * (hi - lo)
        inside = np.clip(inside, lo, hi).astype(x.dtype)
        y = inside.copy()
        keep = y.copy()
        codes = q.quantize(y)
        expect(np.array_equal(y, keep), "quantize changes its argument")
        expect(codes.shape == y.shape, "codes do not have the shape of the input", got=codes.shape, want=y.shape)
        expect(np.issubdtype(codes.dtype, np.integer), "codes are not integers", dtype=codes.dtype)
        expect(codes.min() >= 0 and codes.max() <= top, "a code is outside [0, 2^bits-1]", bits=bits, codes=[int(codes.min()), int(codes.max())])
        back = np.asarray(q.dequantize(codes))
        expect(back.shape == y.shape, "decoded array does not have the shape of the input")
        mag = np.maximum(np.abs(lo), np.abs(hi)) + (hi - lo)
        eps = 1e-9 if x.dtype == np.float64 else 0
        tol = step / 2 * (1 + 1e-4) + mag * (2e-6 if x.dtype == np.float32 else 1e-6 * 0 + 1e-9) + (hi - lo) * 1e-6
        err = np.abs(back.astype(float) - y.astype(float))
        expect((err <= tol).all(), "a value inside the trained range decodes to more than half a step away",
               bits=bits, err=float((err - tol).max()), step=step[:3], x=y[np.unravel_index((err - tol).argmax(), err.shape)])
        # outside the range
        below = (lo - np.abs(u) * rng.choice([1e-3, 1.0, 1e6]) - mag * 1e-3).astype(x.dtype)
        cb = q.quantize(below)
        expect((cb == 0).all(), "an input below the trained range does not get code 0", codes=cb[:2])
        db = np.asarray(q.dequantize(cb)).astype(float)
        expect((np.abs(db - lo) <= mag * 2e-6 + 1e-12).all(), "an input below the trained range does not decode to its lower end")
        above = (hi + np.abs(u) * rng.choice([1e-3, 1.0, 1e6]) + mag * 1e-3).astype(x.dtype)
        ca = q.quantize(above)
        expect(ca.min() >= 0 and ca.max() <= top, "a code is outside [0, 2^bits-1]", bits=bits, codes=[int(ca.min()), int(ca.max())])
        expect((ca[:, hi > lo] == top).all(), "an input above the trained range does not get the largest code")
        # monotone
        allx = np.sort(np.concatenate([below, y, above, x], axis=0), axis=0)
        cs = q.quantize(allx).astype(np.int64)
        expect((np.diff(cs, axis=0) >= 0).all(), "encoding decreases when the input component grows")
        expect(np.array_equal(q.quantize(y), codes), "encoding depends on the other rows or on history")
        # one row at a time
        i = rng.randrange(len(y))
        expect(np.array_equal(q.quantize(y[i:i + 1])[0], codes[i]), "encoding of a row depends on the other rows")
        expect(np.allclose(np.asarray(q.dequantize(codes[i])).reshape(-1), back[i]), "a single code row decodes differently")
        e = q.quantize(np.zeros((0, d)))
        expect(e.shape == (0, d), "codes of an empty batch")


# ------------------------------------------------------------------ Q02
@case("Q02", weight=3)
def product(c):
    rng = c.rng
    m, sub = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3])
    d = m * sub
    k = rng.choice([1, 2, 2, 3, 4, 7])
    if rng.random() < .04:
        k = rng.choice([256, 257, 300])
    n = rng.choice([1, 2, 3, 6, 12]) if k < 200 else rng.choice([257, 301])
    q = ProductQuantizer({"m": m, "k": k})
    q.initialize()
    x = matrix(rng, n, d, "gauss" if k > 200 else None)
    c.log("m", m, "sub", sub, "k", k, "train", x.shape)
    q.train(x)
    y = matrix(rng, rng.choice([1, 2, 5]), d)
    if rng.random() < .4:
        y = x[[rng.randrange(n) for _ in range(min(n, 40))]]
    if k > 200:
        y = x
    keep = y.copy()
    codes = q.quantize(y)
    expect(np.array_equal(y, keep), "quantize changes its argument")
    expect(codes.shape == (len(y), m), "one code per sub-vector", got=codes.shape)
    cen = np.asarray(q.centroids).astype(float)
    expect(cen.ndim == 3 and cen.shape[0] == m and cen.shape[2] == sub and 1 <= cen.shape[1] <= max(k, 1), "codebook shape", got=cen.shape)
    back = np.asarray(q.dequantize(codes)).astype(float)
    expect(back.shape == y.shape, "decoded array does not have the shape of the input")
    for i in range(len(y)):
        for s in range(m):
            code = int(codes[i, s])
            expect(0 <= code < cen.shape[1], "a code is not a centroid number", code=code, k=cen.shape[1])
            v = y[i, s * sub:(s + 1) * sub].astype(float)
            ds = ((cen[s] - v) ** 2).sum(axis=1)
            expect(ds[code] <= ds.min() + 1e-5 * (1 + abs(v).max() ** 2 + abs(cen[s]).max() ** 2), "another centroid is closer to the sub-vector",
                   chosen=code, closest=int(ds.argmin()), distances=[float(ds[code]), float(ds.min())])
            expect(np.array_equal(back[i, s * sub:(s + 1) * sub], cen[s, code]), "decoding does not place the chosen centroid", sub=s)
    # any code array decodes to the centroids it names, distances agree with decoding
    rc = np.array([[rng.randrange(cen.shape[1]) for _ in range(m)] for _ in range(3)], dtype=codes.dtype)
    dec = np.asarray(q.dequantize(rc)).astype(float)
    for i in range(3):
        for s in range(m):
            expect(np.array_equal(dec[i, s * sub:(s + 1) * sub], cen[s, int(rc[i, s])]), "decoding does not place the chosen centroid", sub=s)
    qv = matrix(rng, 1, d)[0]
    for i in range(3):
        got = q.compute_distance(qv, rc[i])
        want = float(np.sqrt(((qv.astype(float) - dec[i]) ** 2).sum()))
        expect(abs(got - want) <= 1e-3 * (1 + want + abs(qv).max()), "distance to a code is not the distance to the decoded vector", got=got, want=want)


# ------------------------------------------------------------------ Q03, Q04
def saq(c, small=False):
    rng = c.rng
    d = rng.choice([1, 2, 3, 4, 6, 9, 12])
    seg = rng.choice([1, 2, 3, 4, 8, 20])
    tb = rng.choice([1, 2, 3, 4, 6, 9, 12, 16, 128])
    n = rng.choice([1, 2, 3, 5, 9])
    x = matrix(rng, n, d)
    q = SAQQuantizer({"total_bits": tb, "n_segments": seg, "adjustment_iters": rng.choice([0, 1, 3])})
    q.initialize()
    c.log("dim", d, "segments", seg, "bits", tb, "train", x.shape, x.dtype)
    q.train(x)
    return q, x, d, seg, tb


def partition(q, d, seg, tb):
    b = [(int(s), int(e)) for s, e in q.segment_boundaries]
    expect(1 <= len(b) <= seg, "more segments than requested", segments=b)
    pos = 0
    for s, e in b:
        expect(s == pos and e > s, "segments are not consecutive non-empty ranges", segments=b)
        pos = e
    expect(pos == d, "segments do not cover all dimensions", segments=b, dim=d)
    bits = [int(k) for k in q.segment_bits]
    expect(len(bits) == len(b) and min(bits) >= 1, "every segment gets at least one bit", bits=bits)
    if tb >= len(b):
        expect(sum(bits) == tb, "bits do not add up to the budget", bits=bits, budget=tb)
    return b


@case("Q03", weight=3)
def segments(c):
    q, x, d, seg, tb = saq(c)
    partition(q, d, seg, tb)
    if c.rng.random() < .3:
        d2 = c.rng.choice([1, 2, 5])
        q.train(matrix(c.rng, 4, d2))
        partition(q, d2, seg, tb)
        c.log("retrained on", d2)


@case("Q04", weight=3)
def saq_codes(c):
    rng = c.rng
    q, x, d, seg, tb = saq(c)
    b = [(int(s), int(e)) for s, e in q.segment_boundaries]
    y = x if rng.random() < .4 else matrix(rng, rng.choice([1, 2, 5]), d)
    keep = y.copy()
    codes = np.asarray(q.quantize(y))
    expect(np.array_equal(y, keep), "quantize changes its argument")
    expect(codes.shape == (len(y), len(b)), "one code per segment", got=codes.shape, segments=len(b))
    z = q.scaler.transform(np.asarray(y, dtype=float))
    cents = [np.asarray(s.centroids).astype(float) for s in q.segment_quantizers]
    err = 0.0
    best = 0.0
    scale = 1 + abs(z).max() ** 2 + max(abs(k).max() ** 2 if k.size else 0 for k in cents)
    for i in range(len(y)):
        for s, (a, e) in enumerate(b):
            code = int(codes[i, s])
            expect(0 <= code < len(cents[s]), "a code is not a centroid number of its segment", code=code)
            ds = ((cents[s] - z[i, a:e]) ** 2).sum(axis=1)
            expect(ds[code] <= ds.min() + 1e-5 * scale, "another centroid of the segment is closer", segment=s, chosen=code, closest=int(ds.argmin()),
                   distances=[float(ds[code]), float(ds.min())])
            err += ds[code]
            best += ds.min()
    expect(err <= best + 1e-4 * scale * len(y) * len(b), "code adjustment increases the reconstruction error", got=err, plain=best)
    rc = np.array([[rng.randrange(len(k)) for k in cents] for _ in range(3)])
    for cd, nm in ((codes, "emitted"), (rc, "arbitrary")):
        dec = np.asarray(q.dequantize(cd)).astype(float)
        zz = np.zeros((len(cd), d))
        for s, (a, e) in enumerate(b):
            zz[:, a:e] = cents[s][cd[:, s].astype(int)]
        want = zz * np.asarray(q.scaler.scale_) + np.asarray(q.scaler.mean_)
        expect(dec.shape == want.shape, "decoded array shape", got=dec.shape)
        expect((np.abs(dec - want) <= 1e-5 * (1 + np.abs(want))).all(), "decoding (%s codes) does not place the denoted centroids" % nm,
               worst=float(np.abs(dec - want).max()))


# ------------------------------------------------------------------ Q05
def snap(x, memo=None, top=True):
    """A comparable picture of a quantizer's trained state (bookkeeping statistics left out)."""
    memo = memo if memo is not None else set()
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return x.item() if isinstance(x, np.generic) else x
    if id(x) in memo:
        return "cycle"
    memo.add(id(x))
    if isinstance(x, dict):
        return {k: snap(v, memo, False) for k, v in x.items() if not (top and k in ("stats",))}
    if isinstance(x, (list, tuple)):
        return [snap(v, memo, False) for v in x]
    if hasattr(x, "__dict__"):
        return (type(x).__name__, {k: snap(v, memo, False) for k, v in vars(x).items() if k != "stats"})
    return repr(type(x))


def make(rng):
    k = rng.randrange(3)
    d = rng.choice([2, 4, 6])
    if k == 0:
        return ScalarQuantizer({"bits": rng.choice([1, 4, 8, 16])}), d
    if k == 1:
        return ProductQuantizer({"m": rng.choice([1, 2]), "k": rng.choice([1, 2, 4])}), d
    return SAQQuantizer({"total_bits": rng.choice([2, 4, 8]), "n_segments": rng.choice([1, 2, 3]), "adjustment_iters": rng.choice([1, 3])}), d


@case("Q05", weight=3)
def pure(c):
    rng = c.rng
    q, d = make(rng)
    q.initialize()
    x = matrix(rng, rng.choice([2, 5, 9]), d)
    q.train(x)
    c.log(type(q).__name__, "dim", d, "train", x.shape)
    arrs = [matrix(rng, rng.choice([1, 2, 4]), d) for _ in range(3)]
    codes = [np.array(q.quantize(a)) for a in arrs]
    qs = [matrix(rng, 1, d)[0] for _ in range(2)]
    decs = [np.array(q.dequantize(k)) for k in codes]
    dists = {(i, j, r): q.compute_distance(qs[i], codes[j][r]) for i in range(2) for j in range(3) for r in range(len(codes[j]))}
    state = snap(q)
    for step in range(rng.choice([2, 4, 8])):
        op = rng.choice(["q", "d", "c", "q", "d", "c", "s", "stats"])
        j = rng.randrange(3)
        c.log(op, j)
        if op == "q":
            a = arrs[j].copy()
            a.flags.writeable = rng.random() < .5
            got = q.quantize(a)
            expect(np.array_equal(a, arrs[j]), "quantize changes its argument")
            expect(np.array_equal(np.asarray(got), codes[j]), "equal inputs give different codes", first=codes[j][:2], now=np.asarray(got)[:2])
            if rng.random() < .3 and getattr(got, "size", 0) and got.flags.writeable:
                got[...] = 0
        elif op == "d":
            k = codes[j].copy()
            got = q.dequantize(k)
            expect(np.array_equal(k, codes[j]), "dequantize changes its argument")
            expect(np.array_equal(np.asarray(got), decs[j]), "equal codes decode differently")
            if rng.random() < .3 and got.size and got.flags.writeable:
                got[...] = 7
        elif op == "c":
            r, i = rng.randrange(len(codes[j])), rng.randrange(2)
            v, k = qs[i].copy(), codes[j][r].copy()
            got = q.compute_distance(v, k)
            expect(np.array_equal(v, qs[i]) and np.array_equal(k, codes[j][r]), "compute_distance changes its arguments")
            expect(got == dists[(i, j, r)] or (got != got and dists[(i, j, r)] != dists[(i, j, r)]), "equal inputs give different distances", first=dists[(i, j, r)], now=got)
        elif op == "s" and isinstance(q, SAQQuantizer):
            i = rng.randrange(2)
            all_ = np.array(q.quantize(x))
            keep = all_.copy()
            v = qs[i].copy()
            q.search_with_rescoring(v, all_, rng.choice([1, 2, 5]))
            expect(np.array_equal(all_, keep) and np.array_equal(v, qs[i]), "search_with_rescoring changes its arguments")
        elif op == "stats":
            q.get_stats()
        expect(snap(q) == state, "a call changes the trained state of the quantizer", op=op)


@case("Q05", weight=1)
def preconditions(c):
    rng = c.rng
    q, d = make(rng)
    x = matrix(rng, 5, d)

    def rejected(when):
        cols = {"ScalarQuantizer": d, "ProductQuantizer": getattr(q, "m", 1), "SAQQuantizer": 2}[type(q).__name__]
        calls = {"quantize": lambda: q.quantize(x), "dequantize": lambda: q.dequantize(np.zeros((2, cols), dtype=int)),
                 "compute_distance": lambda: q.compute_distance(x[0], np.zeros(cols, dtype=int))}
        if isinstance(q, SAQQuantizer):
            calls["search_with_rescoring"] = lambda: q.search_with_rescoring(x[0], np.zeros((2, cols), dtype=int), 1)
        for nm, f in calls.items():
            try:
                r = f()
            except QuantizationError:
                continue
            except Exception as e:
                expect(False, "%s %s raises %s instead of the quantization error" % (nm, when, type(e).__name__), quantizer=type(q).__name__, error=str(e))
            expect(False, "%s %s is accepted" % (nm, when), quantizer=type(q).__name__, result=r)
    c.log(type(q).__name__)
    rejected("before initialization")
    try:
        q.train(x)
        expect(False, "training before initialization is accepted", quantizer=type(q).__name__)
    except QuantizationError:
        pass
    rejected("before initialization")
    q.initialize()
    rejected("before training")
    if rng.random() < .5:
        try:
            q.train(x[0])
            expect(False, "training on a 1-D array is accepted")
        except QuantizationError:
            pass
        rejected("after a failed training")
    q.train(x)
    q.quantize(x)
    q.close()
    rejected("after close")
    q.initialize()
    rejected("after close and initialize")
    if rng.random() < .5:
        q.train(x)
        q.initialize()
        rejected("after re-initialization")
