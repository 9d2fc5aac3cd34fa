"""Quantizers: scalar (Q01), product (Q02), SAQ (Q03, Q04), purity and preconditions (Q05)."""
from .common import *

QERR = "valori.exceptions.QuantizationError"
SC = "valori.quantization.scalar.ScalarQuantizer"
PQ = "valori.quantization.product.ProductQuantizer"
SQ = "valori.quantization.saq.SAQQuantizer"


def hint(ex, f):
    """A lemma that is used when it can be proved and dropped when not."""
    if ex.prove(f):
        ex.fact(f)


def q_setup(ex):
    setup(ex)
    ex.dist_axioms()


def mat(ex, name, d=None, dt="f"):
    m = ex.fresh_mat(2, dt, name)
    if d is not None:
        ex.fact(zi(m.d["s"][0][1]) == zi(d))
    return m


def new(ex, cls, conf):
    ci = ex.repo.cls(cls)
    o = VObj(ci)
    k, m = ci.find("__init__")
    ex.call_func(VFunc(m, k.mod, None, k, o), [VDict(("c", dict(conf)))], {})
    return o


def must(ex, o, name, *args):
    r = call(ex, o, name, *args)
    if r[0] == "exc":
        unexpected(ex, r, "in " + name)
    return r[1]


def frozen(ex, o, skip=("stats",)):
    """A picture of the object's fields: same values (contents for arrays and containers) now and later."""
    out = {}
    for k, v in o.d.items():
        if k in skip:
            continue
        out[k] = (v, v.d.get("s") if isinstance(v, (VArr, VList, VDict, VSet)) else None)
    return out


def unchanged(ex, o, before, what, skip=("stats",)):
    """The fields of o are as they were (checked cell by cell)."""
    for k in sorted(set(before) | set(x for x in o.d if x not in skip)):
        if k not in before or k not in o.d:
            ex.check("%s leaves field %s of the quantizer alone" % (what, k), False)
            continue
        v, s = before[k]
        n = o.d[k]
        ex.check("%s leaves the trained state alone (field %s)" % (what, k), field_same(ex, v, s, n))


def field_same(ex, v, s, n):
    if n is v:
        if s is None or n.d["s"] is s:
            return True
        if isinstance(n, VArr):
            t = n.d["s"]
            vs = [z3.Int("f!%d" % i) for i in range(len(s[0]))]
            if len(t[0]) != len(s[0]):
                return z3.BoolVal(False)
            rng = z3.And(*[z3.And(0 <= x, x < zi(d)) for x, d in zip(vs, s[0])])
            return z3.And(*[zi(a) == zi(b) for a, b in zip(s[0], t[0])],
                          z3.ForAll(vs, IMP(rng, ex.scal(s[1](*vs), s[2]) == ex.scal(t[1](*vs), t[2])))) if vs else z3.BoolVal(True)
        return z3.BoolVal(False)
    if isinstance(v, VArr) and isinstance(n, VArr):
        return field_same(ex, n, s, n) if s is not None else z3.BoolVal(False)
    if isinstance(v, (int, bool, str, float, Fraction)) or is_z3(v):
        try:
            return zb(ex.eq(v, n))
        except Unsupported:
            return z3.BoolVal(False)
    return z3.BoolVal(v is None and n is None)


def arg_same(ex, v, s):
    return field_same(ex, v, s, v)


# ------------------------------------------------------------------ Q01: scalar quantization
def scalar_trained(ex):
    """A scalar quantizer trained on an arbitrary matrix X (through the real constructor, initialize and train)."""
    q_setup(ex)
    b = ex.fresh("bits", I)
    ex.fact(z3.And(b >= 1, b <= 16))
    p = ex.pow2(b)
    ex.fact(p <= 65536)
    o = new(ex, SC, {"bits": b})
    must(ex, o, "initialize")
    X = mat(ex, "train")
    n, d = (zi(x) for x in X.d["s"][0])
    ex.fact(z3.And(n >= 1, d >= 1))
    must(ex, o, "train", X)
    return o, X, n, d, p - 1


class Range:
    """Smallest and largest training value of a dimension."""

    def __init__(self, ex, X, n, d):
        self.lo, self.hi = F("q_lo!%d" % ex.nf, I, R), F("q_hi!%d" % ex.nf, I, R)
        w, u = F("q_wl!%d" % ex.nf, I, I), F("q_wh!%d" % ex.nf, I, I)
        i, j = z3.Ints("i!rg j!rg")
        r = z3.And(0 <= j, j < d)
        x = X.d["s"][1]
        ex.fact(forall([i, j], IMP(z3.And(r, 0 <= i, i < n), z3.And(self.lo(j) <= x(i, j), x(i, j) <= self.hi(j))), x(i, j)))
        ex.fact(forall(j, IMP(r, z3.And(0 <= w(j), w(j) < n, self.lo(j) == x(w(j), j))), self.lo(j)))
        ex.fact(forall(j, IMP(r, z3.And(0 <= u(j), u(j) < n, self.hi(j) == x(u(j), j))), self.hi(j)))


@unit("ScalarQuantizer.codes", "Q01")
def scalar_unit(ex):
    def thunk():
        o, X, n, d, top = scalar_trained(ex)
        g = Range(ex, X, n, d)
        Y = mat(ex, "input", d)
        s = Y.d["s"]
        m = zi(s[0][0])
        C = must(ex, o, "quantize", Y)
        if not isinstance(C, VArr) or len(C.d["s"][0]) != 2:
            ex.check("codes are a matrix", False)
            return
        cs = C.d["s"]
        ex.check("codes have the shape of the input", z3.And(zi(cs[0][0]) == m, zi(cs[0][1]) == d))
        ex.check("codes are integers", cs[2] == "i")
        i, j = ex.fresh("i", I), ex.fresh("j", I)
        ex.fact(z3.And(0 <= i, i < m, 0 <= j, j < d))
        c = zi(cs[1](i, j))
        ex.check("codes lie between 0 and 2^bits - 1", z3.And(0 <= c, c <= top))
        y = zr(s[1](i, j))
        lo, hi = g.lo(j), g.hi(j)
        tr = z3.ToReal(top)
        ex.fact(lo <= hi)           # both are training values, see Range
        step = (hi - lo) / tr
        hint(ex, z3.And(step >= 0, step * tr == hi - lo))
        D = must(ex, o, "dequantize", C)
        ds = D.d["s"]
        ex.check("decoded values have the shape of the input", z3.And(len(ds[0]) == 2, zi(ds[0][0]) == m, zi(ds[0][1]) == d))
        v = zr(ds[1](i, j))
        eff = z3.If(step == 0, z3.RealVal(1), step)
        t = (y - lo) / eff
        hint(ex, t * eff == y - lo)
        hint(ex, IMP(z3.And(lo <= y, y <= hi), z3.And(t >= 0, t <= tr)))
        r = z3.ToReal(ex.round_half(t))
        hint(ex, z3.ToReal(ex.round_half(tr)) == tr)
        hint(ex, z3.ToReal(ex.round_half(z3.RealVal(0))) == 0)
        hint(ex, IMP(z3.And(lo <= y, y <= hi), z3.And(r >= 0, r <= tr)))
        hint(ex, IMP(y <= lo, t <= 0))
        hint(ex, IMP(z3.And(lo <= y, y <= hi), z3.ToReal(c) == r))
        hint(ex, v == z3.ToReal(c) * eff + lo)
        hint(ex, z3.And((r - t) * eff <= eff / 2, (t - r) * eff <= eff / 2))
        ex.check("a value in the trained range decodes to within half a step", IMP(z3.And(lo <= y, y <= hi), z3.And(v - y <= step / 2, y - v <= step / 2)))
        ex.check("a value below the trained range decodes to its lower end", IMP(y <= lo, v == lo))
        i2 = ex.fresh("i2", I)
        ex.fact(z3.And(0 <= i2, i2 < m))
        y2, c2 = zr(s[1](i2, j)), zi(cs[1](i2, j))
        t2 = (y2 - lo) / eff
        hint(ex, t2 * eff == y2 - lo)
        hint(ex, IMP(y <= y2, t <= t2))
        hint(ex, IMP(y <= y2, ex.round_half(t) <= ex.round_half(t2)))
        ex.check("encoding never decreases when the component grows", IMP(y <= y2, c <= c2))
        # one code row on its own
        row = VArr([cs[0][1]], lambda k: cs[1](i, k), "i")
        E = must(ex, o, "dequantize", row)
        es = E.d["s"]
        ex.check("a single code decodes like a batch", z3.And(zr(es[1](0, j)) == v) if len(es[0]) == 2 else zr(es[1](j)) == v)
        reached(ex)
    ex.explore(thunk, "train, quantize, dequantize")


# ------------------------------------------------------------------ Q02: product quantization
class Blocks:
    """off(s): first dimension of sub-space s (s * sub, axiomatised so that no products appear)."""

    def __init__(self, ex, sub):
        self.ex, self.sub = ex, sub
        ex.nf += 1
        off = self.off = F("q_off!%d" % ex.nf, I, I)
        a, b = z3.Ints("a!of b!of")
        ex.raw_fact(off(0) == 0)
        ex.raw_fact(forall([a, b], IMP(a < b, off(a) + sub <= off(b)), (off(a), off(b))))
        plain = type(ex).arith

        def arith(op, x, y, node=None):
            if op == "*":
                for p, q in ((x, y), (y, x)):
                    if is_z3(q) and q.eq(sub) and not (is_z3(p) and p.eq(sub)) and (isinstance(p, int) or is_sort(p, I)):
                        return self.at(p)
            return plain(ex, op, x, y, node)
        ex.arith = arith

    def at(self, s):
        ex, t = self.ex, z3.simplify(zi(s))
        if z3.is_int_value(t) and t.as_long() == 0:
            return z3.IntVal(0)
        if not ex.pure:
            for u in (t, t - 1):
                u = z3.simplify(u)
                ex.fact(self.off(u + 1) == self.off(u) + self.sub)
        return self.off(t)


def sums_hook(ex, cases):
    """np.sum along the last axis of an array whose entries are (provably) those of a known family of sums."""
    plain = type(ex).lib_numpy_sum

    def npsum(args, kw, node):
        v = ex.as_arr(args[0], node)
        s = v.d["s"]
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        last = ax in (-1, len(s[0]) - 1) or (ax is None and len(s[0]) == 1)
        if last and s[2] == "f":
            for c in cases:
                r = c(s)
                if r is not None:
                    if kw.get("keepdims") is True and isinstance(r, VArr):
                        t = r.d["s"]
                        r = VArr(list(t[0]) + [1], lambda *i: t[1](*i[:-1]), "f")
                    return r
            if len(s[0]) == 3:
                f = F("q_sum!%d" % ex.nf, I, I, R)
                ex.nf += 1
                return VArr(s[0][:2], lambda i, j: f(zi(i), zi(j)), "f")
        return plain(ex, args, kw, node)
    ex.lib_numpy_sum = npsum


class PQModel:
    def __init__(self, ex, trained=True):
        self.ex = ex
        q_setup(ex)
        ex.int_width = True
        self.m, self.k = ex.fresh("m", I), ex.fresh("k", I)
        ex.fact(z3.And(self.m >= 1, self.k >= 1))
        self.o = new(ex, PQ, {"m": self.m, "k": self.k})
        must(ex, self.o, "initialize")
        if trained:
            self.ek, self.sub, self.dim = ex.fresh("ek", I), ex.fresh("sub", I), ex.fresh("dim", I)
            ex.fact(z3.And(self.ek >= 1, self.ek <= self.k, self.ek <= 65536, self.sub >= 1, self.dim >= 1))
            self.blocks = Blocks(ex, self.sub)
            ex.fact(self.dim == self.blocks.off(self.m))
            self.C = ex.fresh_mat(3, "f", "centroids", [self.m, self.ek, self.sub])
            self.c = self.C.d["s"][1]
            for f, v in (("centroids", self.C), ("dim", self.dim), ("subvector_dim", self.sub), ("effective_k", self.ek), ("_trained", True)):
                ex.set(self.o, f, v)
            self.subs = [z3.IntVal(0)]

    def inv(self):
        """The representation after training."""
        o = self.o
        c = o.d.get("centroids")
        if not isinstance(c, VArr) or len(c.d["s"][0]) != 3 or c.d["s"][2] != "f":
            return z3.BoolVal(False)
        n = [zi(x) for x in c.d["s"][0]]
        try:
            d, s = zi(o.d.get("dim")), zi(o.d.get("subvector_dim"))
        except Exception:
            return z3.BoolVal(False)
        return z3.And(n[0] == self.m, n[1] >= 1, n[1] <= self.k, n[2] == s, s * self.m == d, zb(self.ex.truth(o.d["_trained"])))

    def near(self, Y):
        """SQ(s, r, c): squared distance between sub-vector s of row r and centroid c."""
        ex = self.ex
        ex.nf += 1
        SQ = F("q_sqd!%d" % ex.nf, I, I, I, R)
        y, n = Y.d["s"][1], zi(Y.d["s"][0][0])

        def case(s):
            if len(s[0]) != 3:
                return None
            r, c, k = ex.fresh("r", I), ex.fresh("c", I), ex.fresh("k", I)
            g = z3.And(0 <= r, r < n, 0 <= c, c < self.ek, 0 <= k, k < self.sub)
            if not ex.prove(z3.And(zi(s[0][0]) == n, zi(s[0][1]) == self.ek, zi(s[0][2]) == self.sub)):
                return None
            x = zr(s[1](r, c, k))
            for sp in reversed(self.subs):
                d = zr(y(r, z3.simplify(self.blocks.off(sp) + k))) - self.c(sp, c, k)
                if ex.prove(IMP(g, x == d * d)):
                    return VArr(s[0][:2], lambda i, j, sp=sp: SQ(sp, zi(i), zi(j)), "f")
            return None
        sums_hook(ex, [case])
        return SQ, n


def arrays_of(L, nd):
    for cell in list(L.mods()):
        if cell[1] == "s":
            o = Val.registry[cell[0]]
            if isinstance(o, VArr) and len(o.d["s"][0]) == nd:
                yield "%d" % (cell[0],), o


def reals_of(L):
    for cell in list(L.mods()):
        v = L.cur(cell)
        if isinstance(v, (Fraction, float)) or is_sort(v, R):
            yield str(cell[1]), v


@unit("ProductQuantizer.train", "Q02")
def pq_train(ex):
    def thunk():
        P = PQModel(ex, trained=False)
        X = mat(ex, "train")
        n, d = (zi(x) for x in X.d["s"][0])
        ex.fact(z3.And(n >= 0, d >= 1))
        r = call(ex, P.o, "train", X)
        if r[0] == "exc":
            ex.check("training fails with the quantization error only", exc_is(ex, r[1], QERR), where(r))
            ex.check("a failed training does not make the quantizer usable", z3.Not(zb(ex.truth(P.o.d["_trained"]))))
            reached(ex)
            return
        ex.check("training leaves one codebook of at least one centroid per sub-space", P.inv())
        ex.check("the trained dimension is that of the data", zi(P.o.d["dim"]) == d)
        reached(ex)
    ex.explore(thunk, "train")


@unit("ProductQuantizer.quantize", "Q02 Q05")
def pq_quantize(ex):
    def thunk():
        P = PQModel(ex)
        Y = mat(ex, "input", P.dim)
        SQ, n = P.near(Y)

        def pool(L):
            if L.i is None:
                return
            P.subs.append(L.i)
            r, s, c = z3.Ints("r!pq s!pq c!pq")
            for nm, a in arrays_of(L, 2):
                e = a.d["s"][1]
                x = zi(e(r, s)) if a.d["s"][2] == "i" else None
                if x is None:
                    continue
                g = z3.And(0 <= r, r < n, 0 <= s, s < L.i)
                yield "pq:rng" + nm, forall([r, s], IMP(g, z3.And(0 <= x, x < P.ek)), x)
                yield "pq:near" + nm, forall([r, s, c], IMP(z3.And(g, 0 <= c, c < P.ek), SQ(s, r, x) <= SQ(s, r, c)), SQ(s, r, c))
        ex.loop_pools = [pool]
        before, ys = frozen(ex, P.o), Y.d["s"]
        Z = must(ex, P.o, "quantize", Y)
        unchanged(ex, P.o, before, "quantize")
        ex.check("quantize leaves its argument alone", arg_same(ex, Y, ys))
        result_fresh(ex, P.o, Z, Y)
        zs = Z.d["s"]
        ex.check("one code per row and sub-space", z3.And(len(zs[0]) == 2, zi(zs[0][0]) == n, zi(zs[0][1]) == P.m))
        r, s, c = ex.fresh("r", I), ex.fresh("s", I), ex.fresh("c", I)
        ex.fact(z3.And(0 <= r, r < n, 0 <= s, s < P.m, 0 <= c, c < P.ek))
        x = zi(zs[1](r, s))
        ex.check("a code is the number of a centroid", z3.And(0 <= x, x < P.ek))
        ex.check("no centroid of the sub-space is closer", SQ(s, r, x) <= SQ(s, r, c))
        reached(ex)
    ex.explore(thunk, "quantize")


def result_fresh(ex, o, r, *args):
    """The result is no part (or view) of the quantizer's state or of an argument."""
    own = [v for v in o.d.values() if isinstance(v, VArr)] + list(args)
    x, seen = r, 0
    while isinstance(x, VArr) and seen < 10:
        if any(x is v for v in own):
            ex.check("the result shares no memory with the quantizer or the arguments", False)
            return
        b = getattr(x, "base", None)
        x, seen = (b[0] if b else None), seen + 1
    ex.check("the result shares no memory with the quantizer or the arguments", True)


@unit("ProductQuantizer.dequantize", "Q02 Q05")
def pq_dequantize(ex):
    def thunk():
        P = PQModel(ex)
        Z = mat(ex, "codes", P.m, "i")
        z = Z.d["s"][1]
        n = zi(Z.d["s"][0][0])
        r, s, k = z3.Ints("r!dq s!dq k!dq")
        ex.fact(forall([r, s], IMP(z3.And(0 <= r, r < n, 0 <= s, s < P.m), z3.And(0 <= z(r, s), z(r, s) < P.ek)), z(r, s)))

        def pool(L):
            if L.i is None:
                return
            P.subs.append(L.i)
            for nm, a in arrays_of(L, 2):
                e = a.d["s"][1]
                c = P.c(s, z(r, s), k)
                yield "pq:dec" + nm, forall([r, s, k], IMP(z3.And(0 <= r, r < n, 0 <= s, s < L.i, 0 <= k, k < P.sub),
                                                          e(r, z3.simplify(P.blocks.off(s) + k)) == c), c)
        ex.loop_pools = [pool]
        before, zs0 = frozen(ex, P.o), Z.d["s"]
        D = must(ex, P.o, "dequantize", Z)
        unchanged(ex, P.o, before, "dequantize")
        ex.check("dequantize leaves its argument alone", arg_same(ex, Z, zs0))
        result_fresh(ex, P.o, D, Z)
        ds = D.d["s"]
        ex.check("decoded vectors have the trained dimension", z3.And(len(ds[0]) == 2, zi(ds[0][0]) == n, zi(ds[0][1]) == P.dim))
        r, s, k = ex.fresh("r", I), ex.fresh("s", I), ex.fresh("k", I)
        ex.fact(z3.And(0 <= r, r < n, 0 <= s, s < P.m, 0 <= k, k < P.sub))
        ex.check("decoding puts the chosen centroid at its place", zr(ds[1](r, z3.simplify(P.blocks.off(s) + k))) == P.c(s, z(r, s), k))
        reached(ex)
    ex.explore(thunk, "dequantize")


@unit("ProductQuantizer.compute_distance", "Q02 Q05")
def pq_distance(ex):
    def thunk():
        P = PQModel(ex)
        q = arg_vec(ex, "query", P.dim)
        zv = ex.fresh_mat(1, "i", "code", [P.m])
        z = zv.d["s"][1]
        s, i = z3.Int("s!pd"), z3.Int("i!pd")
        ex.fact(forall(s, IMP(z3.And(0 <= s, s < P.m), z3.And(0 <= z(s), z(s) < P.ek)), z(s)))
        ex.nf += 1
        DQ, PS = F("q_dsq!%d" % ex.nf, I, R), F("q_psum!%d" % ex.nf, I, R)
        ex.fact(PS(0) == 0)
        qx = q.d["s"][1]

        def case(t):
            if len(t[0]) != 1:
                return None
            k = ex.fresh("k", I)
            if not ex.prove(zi(t[0][0]) == P.sub):
                return None
            x = zr(t[1](k))
            for sp in reversed(P.subs):
                d = zr(qx(z3.simplify(P.blocks.off(sp) + k))) - P.c(sp, z(sp), k)
                if ex.prove(IMP(z3.And(0 <= k, k < P.sub), x == d * d)):
                    ex.fact(DQ(sp) >= 0)
                    return DQ(sp)
            return None
        sums_hook(ex, [case])

        def pool(L):
            if L.i is None:
                return
            P.subs.append(L.i)
            ex.fact(IMP(L.i >= 0, PS(z3.simplify(L.i + 1)) == PS(L.i) + DQ(L.i)))
            for nm, v in reals_of(L):
                yield "pq:sum" + nm, z3.And(zr(v) == PS(L.i), zr(v) >= 0)
        ex.loop_pools = [pool]
        before, qs, zs0 = frozen(ex, P.o), q.d["s"], zv.d["s"]
        H = ex.st.d["Hvec"]
        r = must(ex, P.o, "compute_distance", q, zv)
        unchanged(ex, P.o, before, "compute_distance")
        ex.check("compute_distance leaves its arguments alone", z3.And(ex.st.d["Hvec"] == H, arg_same(ex, zv, zs0)))
        ex.check("the distance is the Euclidean distance to the decoded vector (summed per sub-space)", zr(r) == F("sqrt", R, R)(PS(P.m)))
        reached(ex)
    ex.explore(thunk, "compute_distance")


# ------------------------------------------------------------------ Q03: SAQ segmentation and bit allocation
TB = TTup(TInt, TInt)


def model_libs(ex):
    """Trusted models: sklearn's StandardScaler and PCA, numpy.cumsum, infinity."""
    def cumsum(args, kw, node):
        v = ex.as_arr(args[0], node)
        s = v.d["s"]
        if len(s[0]) != 1:
            raise Unsupported("cumsum")
        c = ex.fresh("cumsum", Arr)
        j = z3.Int("j!cs")
        n = zi(s[0][0])
        ex.fact(adim(c, 0) == n)
        ex.fact(IMP(n > 0, at1(c, 0) == zr(s[1](0))))
        ex.fact(forall(j, IMP(z3.And(1 <= j, j < n), at1(c, j) == at1(c, j - 1) + zr(s[1](j))), at1(c, j)))
        return ex.arr_from_box(c, 1, "f", dims=[s[0][0]])
    ex.lib_numpy_cumsum = cumsum
    ex.lib_const = lambda name: float("inf") if name in ("numpy.inf", "numpy.Inf", "math.inf") else None

    def scaler(args, kw, node):
        inplace = False if "copy" not in kw else kw["copy"] is not True
        if "copy" in kw and not isinstance(kw["copy"], bool):
            raise Unsupported("StandardScaler with a computed copy argument")
        o = VObj("StandardScaler", {"$fit": None, "$inplace": inplace})
        return o

    def pca(args, kw, node):
        return VObj("PCA", {})
    ex.lib_sklearn_preprocessing_StandardScaler = scaler
    ex.lib_sklearn_decomposition_PCA = pca
    ex.ifaces["StandardScaler"] = scaler_attr
    ex.ifaces["PCA"] = pca_attr
    ex.lib_time_time = lambda args, kw, node: ex.fresh("time", R)
    ex.lib_traceback_print_exc = lambda args, kw, node: None


def pca_attr(ex, o, name, node):
    if name in o.d:
        return o.d[name]
    ex.implicit_raise("AttributeError", name, node)


def scaler_attr(ex, o, name, node):
    def fit(e, X):
        s = X.d["s"]
        if len(s[0]) != 2:
            e.implicit_raise("ValueError", "2D expected", node)
        e.need(AND(zi(s[0][0]) >= 1, zi(s[0][1]) >= 1), "ValueError", node)
        e.set(o, "$fit", new_scaler(e, s[0][1]))

    def check(e, X, what):
        if o.d["$fit"] is None:
            e.implicit_raise("ValueError", "not fitted", node)
        X = e.as_arr(X, node)
        s = X.d["s"]
        if len(s[0]) != 2:
            e.implicit_raise("ValueError", "2D expected", node)
        if what == "transform":
            e.need(AND(zi(s[0][0]) >= 1, zi(s[0][1]) == zi(o.d["$fit"][2])), "ValueError", node)
        else:
            e.need(zi(s[0][1]) == zi(o.d["$fit"][2]), "ValueError", node)
        return X

    def run(e, a, kw, n):
        if e.pure:
            raise NeedFork()
        if name in ("fit", "fit_transform"):
            X = e.as_arr(a[0], n)
            fit(e, X)
            return result(e, transform(e, o.d["$fit"], X), X, kw) if name == "fit_transform" else o
        X = check(e, a[0], name)
        return result(e, transform(e, o.d["$fit"], X) if name == "transform" else inverse(e, o.d["$fit"], X), X, kw)

    def result(e, Y, X, kw):
        cp = kw.get("copy", True)
        if not isinstance(cp, bool):
            raise Unsupported("StandardScaler with a computed copy argument")
        if (o.d.get("$inplace") and "copy" not in kw or cp is False) and X.d["s"][2] == "f":
            # without copying, the array given may be the one that is changed
            if e.choose(2):
                e.set(X, "s", Y.d["s"])
                return X
        return Y
    if name in ("fit", "fit_transform", "transform", "inverse_transform"):
        return VPy(run, name)
    raise Unsupported("StandardScaler." + name)


def new_scaler(ex, d):
    mean, scale = ex.fresh("mean", Arr), ex.fresh("scale", Arr)
    j = z3.Int("j!sc")
    ex.fact(forall(j, at1(scale, j) > 0, at1(scale, j)))
    return (mean, scale, d)


def transform(ex, f, X):
    """A new array: every component standardized."""
    s = X.d["s"]
    return VArr([s[0][0], s[0][1]], lambda i, j: (zr(s[1](i, j)) - at1(f[0], zi(j))) / at1(f[1], zi(j)), "f")


def inverse(ex, f, X):
    s = X.d["s"]
    return VArr([s[0][0], s[0][1]], lambda i, j: zr(s[1](i, j)) * at1(f[1], zi(j)) + at1(f[0], zi(j)), "f")


def saq_new(ex, trained=False):
    q_setup(ex)
    ex.int_width = True
    model_libs(ex)
    tb, ns, it = ex.fresh("total_bits", I), ex.fresh("n_segments", I), ex.fresh("adjustment_iters", I)
    ex.fact(z3.And(tb >= 1, ns >= 1, it >= 0))
    o = new(ex, SQ, {"total_bits": tb, "n_segments": ns, "adjustment_iters": it, "rescore_top_k": ex.fresh("rescore", I)})
    must(ex, o, "initialize")
    return o, tb, ns


def seg_at(st, j):
    x = st[2](zi(j))
    S = TB.sort()
    return S.accessor(0, 0)(x), S.accessor(0, 1)(x)


def partition(st, n, dim, from_=None):
    """The list of pairs: consecutive non-empty ranges (from from_) up to dim."""
    j = z3.Int("j!pt")
    s, e = seg_at(st, j)
    s2, e2 = seg_at(st, j + 1)
    lo = z3.IntVal(0) if from_ is None else from_
    f = [forall(j, IMP(z3.And(0 <= j, j < n), z3.And(lo <= s, s < e, e <= dim)), st[2](j)),
         forall(j, IMP(z3.And(0 <= j, j + 1 < n), e == s2), st[2](j)),
         IMP(n > 0, z3.And(seg_at(st, 0)[0] == lo, seg_at(st, n - 1)[1] == dim))]
    return z3.And(*f)


def seg_inv(ex, o, dim, ns, tb, check=None):
    """Segments and bits after training."""
    bl, bits = o.d.get("segment_boundaries"), o.d.get("segment_bits")
    if not isinstance(bl, VList) or not isinstance(bits, VList):
        raise Unsupported("representation of the segments")
    st, bs = ex.sym_list(ex.lst(bl), TB), ex.sym_list(ex.lst(bits), TInt)
    if not (st[3] == TB and bs[3] == TInt):
        raise Unsupported("representation of the segments (%s, %s)" % (st[3], bs[3]))
    n = zi(st[1])
    j = ex.fresh("j", I)
    tot = zi(ex.symbolic_sum(VList(bs)))
    out = {"between one and the requested number of segments": z3.And(n >= 1, n <= ns),
           "segments are consecutive, non-empty ranges that cover every dimension": partition(st, n, dim),
           "every segment has bits": z3.And(zi(bs[1]) == n, IMP(z3.And(0 <= j, j < n), bs[2](j) >= 1)),
           "the bits add up to the budget": IMP(tb >= n, tot == tb)}
    if check:
        for k, f in out.items():
            ex.check(k, f)
    return out


def nest(L, stack):
    """Current values of the loop variables of the loops around (and including) L."""
    stack[L.st] = L
    import ast as _a
    out = [x for x in stack if any(y is L.st for y in _a.walk(x))]
    out.sort(key=lambda x: (x.lineno, x.col_offset))
    return [stack[x] for x in out]


@unit("SAQQuantizer.segmentation", "Q03")
def saq_segments(ex):
    def thunk():
        o, tb, ns = saq_new(ex)
        X = mat(ex, "standardized")
        n, dim = (zi(x) for x in X.d["s"][0])
        ex.fact(z3.And(n >= 1, dim >= 1))
        stack = {}
        ex.fact(INF > 1)
        plain = type(ex).arith

        def arith(op, a, b, node=None):
            r = plain(ex, op, a, b, node)
            if op in ("+", "-") and is_sort(r, R):      # infinity absorbs finite terms; finite sums are finite
                x, y = zr(a), zr(b)
                ex.pure or ex.fact(IMP(z3.And(x < INF, y < INF), r < INF))
                return z3.If(x >= INF, INF, r)
            return r
        ex.arith = arith

        def pool(L):
            if L.i is not None:
                around = nest(L, stack)
                vals = [zi(x.it.at(x.i)) for x in around if x.it is not None and x.it.kind == "range"]
            else:
                vals = []
            s, e = z3.Ints("s!sg e!sg")
            S = zi(o.d["n_segments"])
            rng = z3.And(0 <= s, s <= S, 0 <= e, e <= dim)
            mats = [a for _, a in arrays_of(L, 2)]
            dps = [a for a in mats if a.d["s"][2] == "f"]
            bts = [a for a in mats if a.d["s"][2] == "i"]
            for di, dp in enumerate(dps):
                D = dp.d["s"][1]
                x = zr(D(s, e))
                yield "dp%d:<=inf" % di, forall([s, e], IMP(rng, x <= INF), x)
                yield "dp%d:row0" % di, z3.And(zr(D(0, 0)) < INF, forall(e, IMP(z3.And(1 <= e, e <= dim), zr(D(0, e)) >= INF), zr(D(0, e))))
                for bi, bt in enumerate(bts):
                    y = zi(bt.d["s"][1](s, e))
                    yield "bt%d.%d" % (di, bi), forall([s, e], IMP(z3.And(rng, s >= 1, s <= e, x < INF), z3.And(s - 1 <= y, y <= e - 1, IMP(s == 1, y == 0))), x, y)
                v = vals
                if len(v) == 1:
                    done, todo = s < v[0], s >= v[0]
                elif len(v) == 2:
                    done, todo = z3.Or(s < v[0], z3.And(s == v[0], e < v[1])), z3.Or(s > v[0], z3.And(s == v[0], e >= v[1]))
                elif len(v) == 3:
                    done, todo = z3.Or(s < v[0], z3.And(s == v[0], e < v[1])), z3.Or(s > v[0], z3.And(s == v[0], e > v[1]))
                    yield "dp%d:here" % di, (zr(D(v[0], v[1])) < INF) == (v[2] > v[0] - 1)
                else:
                    continue
                yield "dp%d:todo" % di, forall([s, e], IMP(z3.And(rng, todo), x >= INF), x)
                yield "dp%d:done" % di, forall([s, e], IMP(z3.And(rng, s >= 1, s <= e, done), x < INF), x)
            ints = [(nm, zi(y)) for nm, y, _ in ex.ints_of(L)]
            lists = ex.typed_lists(L)
            for ln, st, _ in lists:
                if st[3] == TB and L.i is not None:
                    m = zi(st[1])
                    yield ln + ":len", m == L.i
                    for nm, y in ints:
                        yield ln + ":part" + nm, z3.And(partition(st, m, dim, y), IMP(m == 0, y == dim))
                        yield ln + ":room" + nm, z3.And(y >= S - L.i, y <= dim, IMP(L.i == S, y == 0))
                elif st[3] in (TInt, TReal) and L.i is not None:
                    m = zi(st[1])
                    yield ln + ":len", m == L.i
                    if st[3] == TInt:
                        j = z3.Int("j!bt")
                        tot = zi(ex.symbolic_sum(VList(st)))
                        yield ln + ":pos", forall(j, IMP(z3.And(0 <= j, j < m), st[2](j) >= 1), st[2](j))
                        for nm, y in ints:
                            N = zi(L.n)
                            yield ln + ":sum" + nm, IMP(L.i < N, y == tb - tot)
                            yield ln + ":rest" + nm, IMP(z3.And(L.i < N, tb >= N), y >= N - L.i)
                        yield ln + ":all", IMP(z3.And(L.i == zi(L.n), tb >= zi(L.n)), tot == tb)
        ex.loop_pools = [pool]
        xs = X.d["s"]
        r = call(ex, o, "_segment_and_allocate_bits", X)
        if r[0] == "exc":
            reached(ex)
            return          # training fails
        seg_inv(ex, o, dim, ns, tb, True)
        ex.check("the number of segments is recorded", zi(o.d["n_segments"]) <= ns)
        ex.check("the data is not modified", arg_same(ex, X, xs))
        reached(ex)
    ex.explore(thunk, "_segment_and_allocate_bits")


# ------------------------------------------------------------------ Q05: purity, preconditions
@unit("ScalarQuantizer.purity", "Q05")
def scalar_pure(ex):
    def thunk():
        o, X, n, d, top = scalar_trained(ex)
        before = frozen(ex, o)
        k = ex.choose(3)
        if k == 0:
            Y = mat(ex, "input", d)
            s = Y.d["s"]
            r = must(ex, o, "quantize", Y)
            what, args = "quantize", [(Y, s)]
        elif k == 1:
            Y = ex.fresh_mat(2, "i", "codes", [ex.fresh("rows", I), d])
            s = Y.d["s"]
            r = must(ex, o, "dequantize", Y)
            what, args = "dequantize", [(Y, s)]
        else:
            q = arg_vec(ex, "query", d)
            z = ex.fresh_mat(1, "i", "code", [d])
            H = ex.st.d["Hvec"]
            s = z.d["s"]
            call(ex, o, "compute_distance", q, z)
            ex.check("compute_distance leaves its arguments alone", z3.And(ex.st.d["Hvec"] == H, arg_same(ex, z, s)))
            unchanged(ex, o, before, "compute_distance")
            reached(ex)
            return
        unchanged(ex, o, before, what)
        for v, s in args:
            ex.check("%s leaves its argument alone" % what, arg_same(ex, v, s))
        result_fresh(ex, o, r, *[v for v, _ in args])
        reached(ex)
    ex.explore(thunk, "quantize / dequantize / compute_distance")


def rejected(ex, o, name, *args):
    """The call raises the quantization error."""
    r = call(ex, o, name, *args)
    if r[0] != "exc":
        ex.check("%s is rejected when the quantizer is not ready" % name, False)
        return
    ex.check("%s is rejected with the quantization error" % name, exc_is(ex, r[1], QERR), where(r))


def ready_unit(cls, conf, short):
    @unit(short + ".preconditions", "Q05")
    def pre(ex):
        def thunk():
            q_setup(ex)
            model_libs(ex)
            o = new(ex, cls, conf(ex))
            hist = ex.choose(6)
            ev = ["not initialized", "initialized, not trained", "training on a vector failed", "closed", "closed and initialized again", "initialized again"][hist]
            if hist == 0:
                X = mat(ex, "train")
                rejected(ex, o, "train", X)
            if hist == 1:
                must(ex, o, "initialize")
            if hist == 2:
                must(ex, o, "initialize")
                v = arg_vec(ex, "flat", ex.fresh("d", I))
                rejected(ex, o, "train", v)
            if hist >= 3:
                must(ex, o, "initialize")
                ex.set(o, "_trained", True)          # training has succeeded
                if hist < 5:
                    must(ex, o, "close")
                if hist >= 4:
                    must(ex, o, "initialize")
            k = ex.choose(3 if cls != SQ else 4)
            if k == 0:
                rejected(ex, o, "quantize", mat(ex, "input"))
            elif k == 1:
                rejected(ex, o, "dequantize", ex.fresh_mat(2, "i", "codes"))
            elif k == 2:
                rejected(ex, o, "compute_distance", arg_vec(ex, "query", ex.fresh("d", I)), ex.fresh_mat(1, "i", "code"))
            else:
                rejected(ex, o, "search_with_rescoring", arg_vec(ex, "query", ex.fresh("d", I)), ex.fresh_mat(2, "i", "codes"), ex.fresh("k", I))
            reached(ex)
        ex.explore(thunk, "calls that need training")
    return pre


def _bits(ex):
    b = ex.fresh("bits", I)
    ex.fact(z3.And(b >= 1, b <= 16))
    return {"bits": b}


def _mk(ex):
    m, k = ex.fresh("m", I), ex.fresh("k", I)
    ex.fact(z3.And(m >= 1, k >= 1))
    return {"m": m, "k": k}


def _saq(ex):
    tb, ns = ex.fresh("total_bits", I), ex.fresh("n_segments", I)
    ex.fact(z3.And(tb >= 1, ns >= 1))
    return {"total_bits": tb, "n_segments": ns}


ready_unit(SC, _bits, "ScalarQuantizer")
ready_unit(PQ, _mk, "ProductQuantizer")
ready_unit(SQ, _saq, "SAQQuantizer")


# ------------------------------------------------------------------ Q04: SAQ codes
TI1 = TMat(1, "i")
TSEG = TObj("Seg")


def typed_ints(ex):
    """Integer vectors held in lists keep their element type."""
    plain = type(ex).type_of

    def type_of(v):
        if isinstance(v, VArr) and v.ref is None and len(v.d["s"][0]) == 1 and v.d["s"][2] == "i":
            return TI1
        return plain(ex, v)
    ex.type_of = type_of


def seg_classes(ex):
    """The class of the per-segment quantizers: a class of the SAQ module (at any depth) with quantize and dequantize."""
    import ast as _a
    from pyvc.repo import ClassInfo
    mod = ex.repo.cls(SQ).mod
    out = []
    for st in _a.walk(mod.tree):
        if isinstance(st, _a.ClassDef) and "." + st.name != SQ[SQ.rfind("."):]:
            ci = ClassInfo(st.name, mod, st)
            if "quantize" in ci.methods and "dequantize" in ci.methods:
                out.append(ci)
    return out


@unit("SAQ segment quantizer.nearest", "Q04 Q05")
def seg_nearest(ex):
    def thunk():
        q_setup(ex)
        ex.int_width = True
        cs = seg_classes(ex)
        if len(cs) != 1:
            raise Unsupported("no single class of segment quantizers")
        k, w, n = ex.fresh("k", I), ex.fresh("width", I), ex.fresh("n", I)
        ex.fact(z3.And(k >= 1, k <= 2 ** 31 - 1, w >= 1, n >= 0))
        C = ex.fresh_mat(2, "f", "centroids", [k, w])
        c = C.d["s"][1]
        ci = cs[0]
        o = VObj(ci)
        ex.call_func(VFunc(ci.methods["__init__"], ci.mod, None, ci, o), [C], {})
        before = frozen(ex, o)
        if ex.choose(2) == 0:
            X = ex.fresh_mat(2, "f", "X", [n, w])
            x, xs = X.d["s"][1], X.d["s"]
            ex.nf += 1
            X2, C2, XC = F("x2!%d" % ex.nf, I, R), F("c2!%d" % ex.nf, I, R), F("xc!%d" % ex.nf, I, I, R)
            dist = lambda r, j: X2(r) + C2(j) - 2 * XC(r, j)        # sum of (x - c)^2 = sum x^2 + sum c^2 - 2 sum x c

            def case(s):
                sh, el = s[0], s[1]
                if len(sh) == 2:
                    j, i = ex.fresh("j", I), ex.fresh("i", I)
                    v = zr(el(i, j))
                    if ex.prove(AND(zi(sh[0]) == n, zi(sh[1]) == w)) and ex.prove(v == zr(x(i, j)) * zr(x(i, j))):
                        return VArr([sh[0]], lambda a: X2(zi(a)), "f")
                    if ex.prove(AND(zi(sh[0]) == k, zi(sh[1]) == w)) and ex.prove(v == zr(c(i, j)) * zr(c(i, j))):
                        return VArr([sh[0]], lambda a: C2(zi(a)), "f")
                if len(sh) == 3 and ex.prove(AND(zi(sh[0]) == n, zi(sh[1]) == k, zi(sh[2]) == w)):
                    i, j, t = ex.fresh("i", I), ex.fresh("j", I), ex.fresh("t", I)
                    d = zr(x(i, t)) - zr(c(j, t))
                    if ex.prove(zr(el(i, j, t)) == d * d):
                        return VArr(sh[:2], lambda a, b: dist(zi(a), zi(b)), "f")
                return None
            sums_hook(ex, [case])
            plain = type(ex).lib_numpy_dot

            def dot(args, kw, node):
                a, b = ex.as_arr(args[0], node), ex.as_arr(args[1], node)
                if len(a.d["s"][0]) == 2 and len(b.d["s"][0]) == 2:
                    i, j, t = ex.fresh("i", I), ex.fresh("j", I), ex.fresh("t", I)
                    sa, sb = a.d["s"], b.d["s"]
                    ok = ex.prove(AND(zi(sa[0][0]) == n, zi(sa[0][1]) == w, zi(sb[0][0]) == w, zi(sb[0][1]) == k))
                    if ok and ex.prove(AND(zr(sa[1](i, t)) == zr(x(i, t)), zr(sb[1](t, j)) == zr(c(j, t)))):
                        return VArr([sa[0][0], sb[0][1]], lambda p, q: XC(zi(p), zi(q)), "f")
                return plain(ex, args, kw, node)
            ex.lib_numpy_dot = dot
            Z = must(ex, o, "quantize", X)
            zs = Z.d["s"]
            ex.check("one code per row", z3.And(len(zs[0]) == 1, zi(zs[0][0]) == n, zs[2] == "i"))
            r, j = ex.fresh("r", I), ex.fresh("j", I)
            ex.fact(z3.And(0 <= r, r < n, 0 <= j, j < k))
            z = zi(zs[1](r))
            ex.check("a code is the number of a centroid of the segment", z3.And(0 <= z, z < k))
            ex.check("no centroid of the segment is closer to the sub-vector", dist(r, z) <= dist(r, j))
            ex.check("the segment quantizer leaves its argument alone", arg_same(ex, X, xs))
        else:
            Z = ex.fresh_mat(1, "i", "codes", [n])
            z, zs = Z.d["s"][1], Z.d["s"]
            i = z3.Int("i!zs")
            ex.fact(forall(i, IMP(z3.And(0 <= i, i < n), z3.And(0 <= z(i), z(i) < k)), z(i)))
            D = must(ex, o, "dequantize", Z)
            ds = D.d["s"]
            ex.check("one decoded row per code", z3.And(len(ds[0]) == 2, zi(ds[0][0]) == n, zi(ds[0][1]) == w))
            r, t = ex.fresh("r", I), ex.fresh("t", I)
            ex.fact(z3.And(0 <= r, r < n, 0 <= t, t < w))
            ex.check("decoding gives the centroid the code denotes", zr(ds[1](r, t)) == zr(c(z(r), t)))
            ex.check("the segment quantizer leaves the codes alone", arg_same(ex, Z, zs))
            result_fresh(ex, o, D, Z)
        unchanged(ex, o, before, "the segment quantizer")
        reached(ex)
    ex.explore(thunk, "quantize / dequantize of one segment")


KOF, WOF = F("seg_k", Obj, I), F("seg_width", Obj, I)
CEN = F("seg_centroid", Obj, I, I, R)


class SAQModel:
    """A trained SAQ quantizer: segments as left by segmentation, one segment quantizer per segment."""

    def __init__(self, ex, n_rows=None):
        self.ex = ex
        self.o, self.tb, _ = saq_new(ex)
        typed_ints(ex)
        o = self.o
        self.dim, self.ns = ex.fresh("dim", I), ex.fresh("segments", I)
        ex.fact(z3.And(self.dim >= 1, self.ns >= 1))
        S = lambda t, nm: ("s", self.ns, (lambda a: (lambda j: z3.Select(a, zi(j))))(a_[0]), t, a_[0])
        lists = {}
        for nm, t in (("segment_boundaries", TB), ("segment_bits", TInt), ("segment_quantizers", TSEG)):
            a_ = [ex.fresh(nm, z3.ArraySort(I, t.sort()))]
            lists[nm] = ("s", self.ns, (lambda a: (lambda j: z3.Select(a, zi(j))))(a_[0]), t, a_[0])
            ex.set(o, nm, VList(lists[nm]))
        self.bl, self.seg = lists["segment_boundaries"], lists["segment_quantizers"][2]
        self.segst = lists["segment_quantizers"]
        S0 = TB.sort()
        self.start = lambda j: S0.accessor(0, 0)(self.bl[2](zi(j)))
        self.end = lambda j: S0.accessor(0, 1)(self.bl[2](zi(j)))
        ex.fact(partition(self.bl, self.ns, self.dim))
        i, j = z3.Ints("i!sm j!sm")
        # lemma (see SAQ lemmas): consecutive ranges are ordered
        ex.fact(forall([i, j], IMP(z3.And(0 <= i, i < j, j < self.ns), self.end(i) <= self.start(j)), (self.bl[2](i), self.bl[2](j))))
        ex.fact(forall(j, IMP(z3.And(0 <= j, j < self.ns), z3.And(KOF(self.seg(j)) >= 1, WOF(self.seg(j)) == self.end(j) - self.start(j))), self.seg(j)))
        ex.set(o, "dim", self.dim)
        ex.set(o, "n_segments", self.ns)
        ex.set(o, "_trained", True)
        ex.set(o, "full_precision_vectors", mat(ex, "stored", self.dim))
        sc = o.d["scaler"]
        self.fit = new_scaler(ex, self.dim)
        ex.set(sc, "$fit", self.fit)
        self.known = []         # index terms of segments the run may speak of
        ex.ifaces["Seg"] = self.attr

    def near(self, Z):
        """SQ(s, r, c): squared distance between part s of row r of the standardized input and centroid c of segment s."""
        self.Z = Z
        self.n = zi(Z.d["s"][0][0])
        self.ex.nf += 1
        self.SQ = F("saq_sqd!%d" % self.ex.nf, I, I, I, R)
        return self.SQ

    def attr(self, ex, v, name, node):
        q = v.term
        if name == "k":
            return KOF(q)
        if name == "sub_dim":
            return WOF(q)
        if name == "centroids":
            return VArr([KOF(q), WOF(q)], lambda i, j: CEN(q, zi(i), zi(j)), "f")
        if name == "quantize":
            return VPy(lambda e, a, kw, n: self.quantize(q, e.as_arr(a[0], n), n), name)
        if name == "dequantize":
            return VPy(lambda e, a, kw, n: self.dequantize(q, e.as_arr(a[0], n), n), name)
        raise Unsupported("segment quantizer attribute " + name)

    def quantize(self, q, X, node):
        """Contract of the segment quantizer (verified in its own unit)."""
        ex = self.ex
        if ex.pure:
            raise NeedFork()
        ex.assumed.add("SAQ segment quantizer.quantize")
        s = X.d["s"]
        if len(s[0]) != 2:
            raise Unsupported("segment quantizer input")
        ex.need(zi(s[0][1]) == WOF(q), "ValueError", node)
        z = ex.fresh_mat(1, "i", "segcodes", [s[0][0]])
        e = z.d["s"][1]
        r, c = z3.Ints("r!sq c!sq")
        n = zi(s[0][0])
        ex.fact(forall(r, IMP(z3.And(0 <= r, r < n), z3.And(0 <= e(r), e(r) < KOF(q))), e(r)))
        if hasattr(self, "Z"):
            zz = self.Z.d["s"][1]
            r1, k1 = ex.fresh("r", I), ex.fresh("k", I)
            for sp in reversed(self.known):
                if ex.prove(q == self.seg(sp)):
                    g = z3.And(0 <= r1, r1 < n, 0 <= k1, k1 < WOF(q))
                    if ex.prove(z3.And(n == self.n, IMP(g, zr(s[1](r1, k1)) == zr(zz(r1, self.start(sp) + k1))))):
                        ex.fact(forall([r, c], IMP(z3.And(0 <= r, r < n, 0 <= c, c < KOF(q)), self.SQ(sp, r, e(r)) <= self.SQ(sp, r, c)), self.SQ(sp, r, c)))
                    break
        return z

    def dequantize(self, q, Z, node):
        ex = self.ex
        if ex.pure:
            raise NeedFork()
        ex.assumed.add("SAQ segment quantizer.dequantize")
        s = Z.d["s"]
        if len(s[0]) == 2:
            ex.need(zi(s[0][1]) == 1, "IndexError", node)
            at = lambda r: s[1](r, 0)
        else:
            at = lambda r: s[1](r)
        r = ex.fresh("r", I)
        x = zi(at(r))
        ex.need(IMP(z3.And(0 <= r, r < zi(s[0][0])), z3.And(0 <= x, x < KOF(q))), "IndexError", node)
        return VArr([s[0][0], WOF(q)], lambda i, j: CEN(q, zi(at(i)), zi(j)), "f")


def code_lists(ex, L, cells=False):
    for ln, st, _ in ex.typed_lists(L):
        if st[3] == TI1:
            yield ln, st


@unit("SAQ lemmas", "Q04")
def saq_lemmas(ex):
    def thunk():
        setup(ex)
        st, en = F("lem_start", I, I), F("lem_end", I, I)
        d, n, j = z3.Int("d!lm"), z3.Int("n!lm"), z3.Int("j!lm")
        ex.fact(forall(j, IMP(z3.And(0 <= j, j < n), st(j) < en(j)), en(j)))
        ex.fact(forall(j, IMP(z3.And(0 <= j, j + 1 < n), en(j) == st(j + 1)), en(j)))
        P = lambda j, d: IMP(z3.And(0 <= j, j + 1 + d < n), en(j) <= st(j + 1 + d))
        a = ex.fresh("a", I)
        ex.check("consecutive ranges are ordered: base", P(a, z3.IntVal(0)))
        ex.fact(z3.And(d >= 0, P(a, d)))
        hint(ex, IMP(z3.And(0 <= a, a + 2 + d < n), en(a + 1 + d) == st(a + 2 + d)))
        ex.check("consecutive ranges are ordered: step", P(a, d + 1))
        reached(ex)
    ex.explore(thunk, "lemma")


@unit("SAQQuantizer.quantize", "Q04 Q05")
def saq_quantize(ex):
    def thunk():
        M = SAQModel(ex)
        o = M.o
        Y = mat(ex, "input", M.dim)
        ex.fact(zi(Y.d["s"][0][0]) >= 1)
        Zst = transform(ex, M.fit, Y)
        SQ = M.near(Zst)
        n = M.n
        best = []

        def okcode(j, r, c, x):
            return z3.And(0 <= x, x < KOF(M.seg(j)), IMP(z3.And(0 <= c, c < KOF(M.seg(j))), SQ(j, r, x) <= SQ(j, r, c)))

        def pool(L):
            for x in ex.ints_of(L):
                pass
            if L.i is not None:
                M.known.append(L.i)
            j, r, c = z3.Ints("j!sz r!sz c!sz")
            for ln, st in code_lists(ex, L):
                m = zi(st[1])
                b = st[2](j)
                x = iat1(b, r)
                yield ln + ":len<=", m <= M.ns
                yield ln + ":len", m == M.ns
                if L.i is not None:
                    yield ln + ":len=i", m == L.i
                yield ln + ":rows", forall(j, IMP(z3.And(0 <= j, j < m), adim(b, 0) == n), b)
                g = z3.And(0 <= j, j < m, 0 <= r, r < n)
                yield ln + ":range", forall([j, r], IMP(g, z3.And(0 <= x, x < KOF(M.seg(j)))), x)
                yield ln + ":near", forall([j, r, c], IMP(z3.And(g, 0 <= c, c < KOF(M.seg(j))), SQ(j, r, x) <= SQ(j, r, c)), (SQ(j, r, c), b))
        ex.loop_pools = [pool]

        def vstack(args, kw, node):
            l = ex.unopt(args[0])
            if isinstance(l, VList) and ex.lst(l)[0] == "s" and ex.lst(l)[3] == TI1:
                s = ex.lst(l)
                ex.need(zi(s[1]) >= 1, "ValueError", node)
                return VArr([s[1], adim(s[2](0), 0)], lambda i, j: iat1(s[2](zi(i)), zi(j)), "i")
            return type(ex).lib_numpy_vstack(ex, args, kw, node)
        ex.lib_numpy_vstack = vstack
        ex.lib_numpy_mean = lambda args, kw, node: ex.fresh("mean", R) if not kw and len(args) == 1 else type(ex).lib_numpy_mean(ex, args, kw, node)
        before, ys = frozen(ex, o), Y.d["s"]
        r = call(ex, o, "quantize", Y)
        if r[0] == "exc":
            unexpected(ex, r, "in quantize")
        C = r[1]
        unchanged(ex, o, before, "quantize")
        ex.check("quantize leaves its argument alone", arg_same(ex, Y, ys))
        cs = C.d["s"]
        ex.check("one code per row and segment", z3.And(len(cs[0]) == 2, zi(cs[0][0]) == n, zi(cs[0][1]) == M.ns))
        r, s, c = ex.fresh("r", I), ex.fresh("s", I), ex.fresh("c", I)
        ex.fact(z3.And(0 <= r, r < n, 0 <= s, s < M.ns, 0 <= c, c < KOF(M.seg(s))))
        x = zi(cs[1](r, s))
        ex.check("a code is the number of a centroid of its segment", z3.And(0 <= x, x < KOF(M.seg(s))))
        ex.check("no centroid of the segment is closer (also after code adjustment)", SQ(s, r, x) <= SQ(s, r, c))
        reached(ex)
    ex.explore(thunk, "quantize")


def saq_codes(ex, M, name="codes"):
    """A matrix of valid codes for the model's segments."""
    Z = mat(ex, name, M.ns, "i")
    z, n = Z.d["s"][1], zi(Z.d["s"][0][0])
    ex.fact(n >= 1)
    r, j = z3.Ints("r!zc j!zc")
    ex.fact(forall([r, j], IMP(z3.And(0 <= r, r < n, 0 <= j, j < M.ns), z3.And(0 <= z(r, j), z(r, j) < KOF(M.seg(j)))), z(r, j)))
    return Z, z, n


def rec_pool(ex, M, z, n):
    """The reconstruction holds the chosen centroids of the segments done so far."""
    def pool(L):
        if L.i is None:
            return
        M.known.append(L.i)
        r, j, k = z3.Ints("r!rp j!rp k!rp")
        for nm, a in arrays_of(L, 2):
            if a.d["s"][2] != "f":
                continue
            e = a.d["s"][1]
            c = CEN(M.seg(j), z(r, j), k)
            yield "saq:rec" + nm, forall([r, j, k], IMP(z3.And(0 <= r, r < n, 0 <= j, j < L.i, 0 <= k, k < M.end(j) - M.start(j)),
                                                       zr(e(r, M.start(j) + k)) == c), c)
    return pool


@unit("SAQQuantizer.dequantize", "Q04 Q05")
def saq_dequantize(ex):
    def thunk():
        M = SAQModel(ex)
        o = M.o
        Z, z, n = saq_codes(ex, M)
        ex.loop_pools = [rec_pool(ex, M, z, n)]
        before, zs = frozen(ex, o), Z.d["s"]
        r = call(ex, o, "dequantize", Z)
        if r[0] == "exc":
            unexpected(ex, r, "in dequantize")
        D = r[1]
        unchanged(ex, o, before, "dequantize")
        ex.check("dequantize leaves its argument alone", arg_same(ex, Z, zs))
        result_fresh(ex, o, D, Z)
        ds = D.d["s"]
        ex.check("decoded vectors have the trained dimension", z3.And(len(ds[0]) == 2, zi(ds[0][0]) == n, zi(ds[0][1]) == M.dim))
        r, s, k = ex.fresh("r", I), ex.fresh("s", I), ex.fresh("k", I)
        ex.fact(z3.And(0 <= r, r < n, 0 <= s, s < M.ns, 0 <= k, k < M.end(s) - M.start(s)))
        p = M.start(s) + k
        c = CEN(M.seg(s), z(r, s), k)
        ex.check("decoding fills each segment with the denoted centroid, scaled back",
                 zr(ds[1](r, p)) == c * at1(M.fit[1], p) + at1(M.fit[0], p))
        reached(ex)
    ex.explore(thunk, "dequantize")


@unit("SAQQuantizer.compute_distance", "Q05")
def saq_distance(ex):
    def thunk():
        M = SAQModel(ex)
        o = M.o
        q = arg_vec(ex, "query", M.dim)
        zv = ex.fresh_mat(1, "i", "code", [M.ns])
        z = zv.d["s"][1]
        j = z3.Int("j!cd")
        ex.fact(forall(j, IMP(z3.And(0 <= j, j < M.ns), z3.And(0 <= z(j), z(j) < KOF(M.seg(j)))), z(j)))
        before, zs = frozen(ex, o), zv.d["s"]
        H = ex.st.d["Hvec"]
        call(ex, o, "compute_distance", q, zv)
        unchanged(ex, o, before, "compute_distance")
        ex.check("compute_distance leaves its arguments alone", z3.And(ex.st.d["Hvec"] == H, arg_same(ex, zv, zs)))
        reached(ex)
    ex.explore(thunk, "compute_distance")


@unit("SAQQuantizer.train_segments", "Q04")
def saq_train_segments(ex):
    def thunk():
        M = SAQModel(ex)
        o = M.o
        X = mat(ex, "standardized", M.dim)
        ex.fact(zi(X.d["s"][0][0]) >= 1)
        ex.set(o, "segment_quantizers", VList(("c", [])))
        j = z3.Int("j!ts")

        def seg_new(e, ci, args, kw, node):
            C = e.as_arr(args[0], node)
            s = C.d["s"]
            if len(s[0]) != 2 or s[2] != "f":
                raise Unsupported("codebook representation")
            if e.pure:
                raise NeedFork()
            q = e.fresh("segq", Obj)
            e.fact(z3.And(KOF(q) == zi(s[0][0]), WOF(q) == zi(s[0][1])))
            return VOpaque(q, "Seg")
        for ci in seg_classes(ex):
            ex.contracts[ci.qual] = seg_new

        def pool(L):
            for ln, st, _ in ex.typed_lists(L):
                if st[3] == TSEG and L.i is not None:
                    m = zi(st[1])
                    yield ln + ":len", m == L.i
                    q = st[2](j)
                    yield ln + ":dims", forall(j, IMP(z3.And(0 <= j, j < m), z3.And(KOF(q) >= 1, WOF(q) == M.end(j) - M.start(j))), q)
        ex.loop_pools = [pool]
        xs = X.d["s"]
        r = call(ex, o, "_train_segment_quantizers", X)
        if r[0] == "exc":
            reached(ex)
            return
        l = o.d["segment_quantizers"]
        st = ex.sym_list(ex.lst(l), TSEG)
        j1 = ex.fresh("j", I)
        ex.fact(z3.And(0 <= j1, j1 < M.ns))
        q = st[2](j1)
        ex.check("one quantizer per segment", zi(st[1]) == M.ns)
        ex.check("a segment's codebook has at least one centroid, as wide as the segment", z3.And(KOF(q) >= 1, WOF(q) == M.end(j1) - M.start(j1)))
        ex.check("training the segments leaves the data alone", arg_same(ex, X, xs))
        reached(ex)
    ex.explore(thunk, "_train_segment_quantizers")


@unit("SAQQuantizer.train", "Q03 Q04 Q05")
def saq_train(ex):
    def thunk():
        o, tb, ns0 = saq_new(ex)
        typed_ints(ex)
        S0 = TB.sort()

        def sym_list_of(name, t, n):
            a = ex.fresh(name, z3.ArraySort(I, t.sort()))
            return ("s", n, lambda j: z3.Select(a, zi(j)), t, a)

        def segment(e, ob, args, kw, node):
            X = e.as_arr(args[0], node)
            s = X.d["s"]
            if len(s[0]) != 2:
                e.implicit_raise("ValueError", "2D expected", node)
            if ex.choose(2):
                e.implicit_raise("ValueError", "segmentation fails", node)
            dim, n = zi(s[0][1]), ex.fresh("segments", I)
            st, bs = sym_list_of("boundaries", TB, n), sym_list_of("bits", TInt, n)
            j = z3.Int("j!tr")
            e.fact(z3.And(n >= 1, n <= zi(ob.d["n_segments"]), partition(st, n, dim)))
            e.fact(forall(j, IMP(z3.And(0 <= j, j < n), bs[2](j) >= 1), bs[2](j)))
            e.fact(IMP(tb >= n, zi(e.symbolic_sum(VList(bs))) == tb))
            e.set(ob, "segment_boundaries", VList(st))
            e.set(ob, "segment_bits", VList(bs))
            m = ex.fresh("n_segments", I)
            e.fact(m <= zi(ob.d["n_segments"]))
            e.set(ob, "n_segments", m)

        def segs(e, ob, args, kw, node):
            X = e.as_arr(args[0], node)
            if ex.choose(2):
                e.implicit_raise("ValueError", "clustering fails", node)
            b = e.sym_list(e.lst(ob.d["segment_boundaries"]), TB)
            e.check("segments are trained on data of the segmented dimension", IMP(b[1] > 0, seg_at(b, b[1] - 1)[1] == zi(X.d["s"][0][1])))
            st = sym_list_of("segment_quantizers", TSEG, b[1])
            j = z3.Int("j!tq")
            q = st[2](j)
            e.fact(forall(j, IMP(z3.And(0 <= j, j < b[1]), z3.And(KOF(q) >= 1, WOF(q) == seg_at(b, j)[1] - seg_at(b, j)[0])), q))
            e.set(ob, "segment_quantizers", VList(st))

        def quantize(e, ob, args, kw, node):
            ex.check("the quantizer is ready when its own codes are first computed", e.truth(ob.d["_trained"]))
            if ex.choose(2):
                raise PyRaise(VExc(ex.repo.cls(QERR), ("SAQ quantization failed",)), getattr(node, "lineno", None))
            return e.fresh_mat(2, "i", "codes")
        ex.contracts[SQ + "._segment_and_allocate_bits"] = segment
        ex.contracts[SQ + "._train_segment_quantizers"] = segs
        ex.contracts[SQ + ".quantize"] = quantize
        X = mat(ex, "train")
        n, dim = (zi(x) for x in X.d["s"][0])
        ex.fact(z3.And(n >= 1, dim >= 1))
        xs = X.d["s"]
        r = call(ex, o, "train", X)
        ex.check("training leaves the data alone", arg_same(ex, X, xs))
        if r[0] == "exc":
            ex.check("training fails with the quantization error", exc_is(ex, r[1], QERR), where(r))
            ex.check("a failed training leaves the quantizer untrained", z3.Not(zb(ex.truth(o.d["_trained"]))))
            reached(ex)
            return
        seg_inv(ex, o, dim, ns0, tb, True)
        b = ex.sym_list(ex.lst(o.d["segment_boundaries"]), TB)
        st = ex.sym_list(ex.lst(o.d["segment_quantizers"]), TSEG)
        j1 = ex.fresh("j", I)
        ex.fact(z3.And(0 <= j1, j1 < b[1]))
        ex.check("one quantizer per segment, as wide as the segment", z3.And(st[1] == b[1], KOF(st[2](j1)) >= 1, WOF(st[2](j1)) == seg_at(b, j1)[1] - seg_at(b, j1)[0]))
        ex.check("the quantizer is trained for the dimension of the data", z3.And(zb(ex.truth(o.d["_trained"])), zi(o.d["dim"]) == dim))
        fit = o.d["scaler"].d.get("$fit")
        ex.check("the standardization was fitted to the data", fit is not None and zi(fit[2]) == dim)
        reached(ex)
    ex.explore(thunk, "train")


@unit("SAQQuantizer.search_with_rescoring", "Q05")
def saq_search(ex):
    def thunk():
        M = SAQModel(ex)
        o = M.o
        q = arg_vec(ex, "query", M.dim)
        Z, z, n = saq_codes(ex, M)

        def distance(e, ob, args, kw, node):
            """What compute_distance's unit proves: a number, nothing written."""
            if e.pure:
                raise NeedFork()
            if e.choose(2):
                raise PyRaise(VExc(e.repo.cls(QERR), ("not ready",)), getattr(node, "lineno", None))
            return e.fresh("distance", R)
        ex.contracts[SQ + ".compute_distance"] = distance
        before, zs = frozen(ex, o), Z.d["s"]
        H, al0 = ex.st.d["Hvec"], ex.st.d["alloc"]
        r = call(ex, o, "search_with_rescoring", q, Z, ex.fresh("top_k", I))
        unchanged(ex, o, before, "search_with_rescoring")
        ref = ex.fresh("ref", I)
        ex.check("search_with_rescoring leaves its arguments alone", z3.And(IMP(z3.And(0 <= ref, ref < al0), z3.Select(ex.st.d["Hvec"], ref) == z3.Select(H, ref)), arg_same(ex, Z, zs)))
        reached(ex)
    ex.explore(thunk, "search_with_rescoring")
