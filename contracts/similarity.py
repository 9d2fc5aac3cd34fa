"""Similarity helpers (U02)."""
from .common import *
from pyvc.repo import VFunc

SIM = "valori.utils.similarity."
CS = F("cossim", Arr, Arr, R)
ED = F("eucdist", Arr, Arr, R)


def sim_setup(ex):
    setup(ex)
    ex.dist_axioms()
    c, d = z3.Consts("c!sm d!sm", Arr)
    # Cauchy-Schwarz, norm and inner product (trusted mathematics over the reals)
    ex.raw_fact(forall([c, d], z3.And(CS(c, d) <= 1, CS(c, d) >= -1, CS(c, d) == CS(d, c)), CS(c, d)))
    ex.raw_fact(forall(c, anorm(c) >= 0, anorm(c)))
    ex.raw_fact(forall(c, adot(c, c) == anorm(c) * anorm(c), adot(c, c)))
    ex.raw_fact(forall([c, d], IMP(z3.Or(anorm(c) == 0, anorm(d) == 0), adot(c, d) == 0), adot(c, d)))
    ex.sums = []
    plain = type(ex).lib_numpy_sum

    def npsum(args, kw, node):
        r = plain(ex, args, kw, node)
        v = args[0]
        if is_z3(r) and isinstance(v, VArr) and len(v.d["s"][0]) == 1:
            ex.sums.append((r, v.d["s"]))
        return r
    ex.lib_numpy_sum = npsum


def fn(ex, name):
    f = ex.repo.dotted(SIM + name)
    if not isinstance(f, VFunc):
        raise Unsupported("function %s not found" % name)
    return f


def arg_nd(ex, name):
    nd = ex.choose(3)
    if nd == 1:
        v = arg_vec(ex, name)
        return v, 1
    if nd == 2:
        v = ex.fresh_mat(2, "f", name)
        return v, 2
    x = ex.fresh(name, R)
    return VArr([], lambda *i: x, "f"), 0


def is_sum(ex, r, n, e):
    """r is a recorded sum over an array with the n elements e(i)."""
    out = []
    for t, s in ex.sums:
        i = z3.Int("i!su")
        x = s[1](i)
        x = z3.If(x, z3.RealVal(1), z3.RealVal(0)) if is_sort(x, B) else zr(x)
        out.append(z3.And(zr(t) == zr(r), zi(s[0][0]) == n, z3.ForAll([i], IMP(z3.And(0 <= i, i < n), x == e(i)))))
    return z3.Or(*out) if out else z3.BoolVal(False)


def pair_unit(name, spec, empty_ok=True):
    @unit("similarity." + name, "U02")
    def u(ex):
        def thunk():
            sim_setup(ex)
            a, na = arg_nd(ex, "a")
            b, nb = arg_nd(ex, "b")
            before = [dict(a.d), dict(b.d)]
            H = ex.st.d["Hvec"]
            r = outcome(ex, lambda: ex.call(fn(ex, name), [a, b], {}))
            ex.check("the arguments are not modified", ex.st.d["Hvec"] == H)
            if na != 1 or nb != 1:
                ex.check("a wrong rank is rejected", r[0] == "exc" and r[1].cls == "ValueError", where(r))
                reached(ex)
                return
            n, m = zi(a.d["s"][0][0]), zi(b.d["s"][0][0])
            if r[0] == "exc":
                if r[1].cls != "ValueError":
                    unexpected(ex, r)
                ex.check("vectors of equal length are accepted", z3.Or(n != m, *([n == 0] if not empty_ok else [])))
                reached(ex)
                return
            ex.check("unequal lengths are rejected", n == m)
            ca, cb = content_vec(ex, a), content_vec(ex, b)
            res = r[1]
            if isinstance(res, VArr) and not res.d["s"][0]:
                res = res.d["s"][1]()
            if not isnum(res):
                ex.check("the result is a number", False)
                return
            spec(ex, zr(res), n, ca, cb)
            reached(ex)
        ex.explore(thunk, name)


def cos_spec(ex, r, n, a, b):
    ex.fact(CS(a, b) == CS(a, b))
    ex.check("the cosine similarity (0 for a zero vector)", r == CS(a, b))
    ex.check("similarity lies between -1 and 1", z3.And(r >= -1, r <= 1))
    ex.check("symmetric", r == CS(b, a))


def cosd_spec(ex, r, n, a, b):
    ex.check("one minus the cosine similarity", r == 1 - CS(a, b))
    ex.check("symmetric", r == 1 - CS(b, a))


def dot_spec(ex, r, n, a, b):
    ex.check("the inner product", r == adot(a, b))
    ex.check("symmetric", r == adot(b, a))


def euc_spec(ex, r, n, a, b):
    ex.check("the Euclidean distance", r == ED(a, b))
    ex.check("symmetric", r == ED(b, a))


def euc2_spec(ex, r, n, a, b):
    ex.check("the squared Euclidean distance", r == ED(a, b) * ED(a, b))


def absdiff(a, b):
    return lambda i: z3.If(at1(a, i) - at1(b, i) >= 0, at1(a, i) - at1(b, i), at1(b, i) - at1(a, i))


def man_spec(ex, r, n, a, b):
    ex.check("the sum of the absolute differences", is_sum(ex, r, n, absdiff(a, b)))


def che_spec(ex, r, n, a, b):
    i = ex.fresh("i", I)
    j = z3.Int("j!ch")
    e = absdiff(a, b)
    ex.check("no absolute difference exceeds it", IMP(z3.And(0 <= i, i < n), r >= e(i)))
    ex.check("it is one of the absolute differences", z3.Exists([j], z3.And(0 <= j, j < n, r == e(j))))


def ham_spec(ex, r, n, a, b):
    ex.check("the number of positions where exactly one entry is positive", is_sum(ex, r, n, lambda i: z3.If((at1(a, i) > 0) != (at1(b, i) > 0), z3.RealVal(1), z3.RealVal(0))))


def jac_parts(ex, n, a, b):
    def pick(e):
        for t, s in ex.sums:
            i = z3.Int("i!jp")
            x = s[1](i)
            x = z3.If(x, z3.RealVal(1), z3.RealVal(0)) if is_sort(x, B) else zr(x)
            if ex.prove(z3.And(zi(s[0][0]) == n, z3.ForAll([i], IMP(z3.And(0 <= i, i < n), x == e(i))))):
                return zr(t)
        return None
    one = lambda f: lambda i: z3.If(f(at1(a, i) > 0, at1(b, i) > 0), z3.RealVal(1), z3.RealVal(0))
    return pick(one(z3.And)), pick(one(z3.Or))


def jac_value(ex, n, a, b):
    inter, union = jac_parts(ex, n, a, b)
    if inter is None or union is None:
        ex.check("the sizes of intersection and union are computed", False)
        raise PathEnd()
    # sums are monotone in their terms (trusted lemma)
    ex.fact(z3.And(0 <= inter, inter <= union))
    return z3.If(union == 0, z3.RealVal(1), inter / union)


def jac_spec(ex, r, n, a, b):
    v = jac_value(ex, n, a, b)
    ex.check("intersection over union of the positive positions (1 when there are none)", r == v)
    ex.check("similarity lies between 0 and 1", z3.And(r >= 0, r <= 1))


def jacd_spec(ex, r, n, a, b):
    ex.check("one minus the Jaccard similarity", r == 1 - jac_value(ex, n, a, b))


for _n, _s, _e in (("cosine_similarity", cos_spec, True), ("cosine_distance", cosd_spec, True), ("euclidean_distance", euc_spec, True),
                   ("euclidean_distance_squared", euc2_spec, True), ("dot_product", dot_spec, True), ("manhattan_distance", man_spec, True),
                   ("chebyshev_distance", che_spec, False), ("hamming_distance", ham_spec, True), ("jaccard_similarity", jac_spec, True),
                   ("jaccard_distance", jacd_spec, True)):
    pair_unit(_n, _s, _e)


@unit("similarity.normalize_vector", "U02")
def norm_unit(ex):
    def thunk():
        sim_setup(ex)
        v, nd = arg_nd(ex, "vector")
        norm = ex.fresh("norm", Str)
        H, al = ex.st.d["Hvec"], ex.st.d["alloc"]
        r = outcome(ex, lambda: ex.call(fn(ex, "normalize_vector"), [v, norm], {}))
        q = ex.fresh("q", I)
        ex.check("the argument is not modified", IMP(z3.And(0 <= q, q < al), z3.Select(ex.st.d["Hvec"], q) == z3.Select(H, q)))
        known = z3.Or(*[norm == lit(x) for x in ("l2", "l1", "max")])
        if nd != 1:
            ex.check("a wrong rank is rejected", r[0] == "exc" and r[1].cls == "ValueError", where(r))
            reached(ex)
            return
        n = zi(v.d["s"][0][0])
        c = content_vec(ex, v)
        if r[0] == "exc":
            if r[1].cls != "ValueError":
                unexpected(ex, r)
            ex.check("a known norm is accepted", z3.Or(z3.Not(known), n == 0))
            reached(ex)
            return
        ex.check("unknown norms are rejected", known)
        w = r[1]
        if not isinstance(w, VArr) or len(w.d["s"][0]) != 1:
            ex.check("the result is a vector", False)
            return
        ex.check("the result is a new array", w is not v and (w.ref is None or zi(w.ref) >= al))
        s = w.d["s"]
        ex.check("same length", zi(s[0][0]) == n)
        i, j = ex.fresh("i", I), z3.Int("j!nv")
        e = lambda k: z3.If(at1(c, k) >= 0, at1(c, k), -at1(c, k))
        N = ex.fresh("N", R)
        mx = z3.And(z3.Exists([j], z3.And(0 <= j, j < n, N == e(j))), z3.ForAll([j], IMP(z3.And(0 <= j, j < n), e(j) <= N)))
        def scaled(x):
            return z3.And(IMP(x != 0, zr(s[1](i)) * x == at1(c, i)), IMP(x == 0, zr(s[1](i)) == at1(c, i)))
        rng = z3.And(0 <= i, i < n)
        ex.check("l2: divided by the Euclidean norm", IMP(z3.And(rng, norm == lit("l2")), scaled(anorm(c))))
        for t, _ in ex.sums:
            ex.check("l1: divided by the sum of absolute values", IMP(z3.And(rng, norm == lit("l1")), z3.And(is_sum(ex, t, n, e), scaled(zr(t)))))
        ex.check("l1: a sum is computed", z3.Or(norm != lit("l1"), len(ex.sums) > 0))
        ex.check("max: divided by the largest absolute value", IMP(z3.And(rng, norm == lit("max"), mx), scaled(N)))
        reached(ex)
    ex.explore(thunk, "normalize_vector")


@unit("similarity.batch_cosine_similarity", "U02")
def batch_unit(ex):
    def thunk():
        sim_setup(ex)
        a, na = arg_nd(ex, "a")
        b, nb = arg_nd(ex, "b")
        r = outcome(ex, lambda: ex.call(fn(ex, "batch_cosine_similarity"), [a, b], {}))
        if na != 2 or nb != 2:
            ex.check("a wrong rank is rejected", r[0] == "exc" and r[1].cls == "ValueError", where(r))
            reached(ex)
            return
        (p, d), (q, e) = a.d["s"][0], b.d["s"][0]
        if r[0] == "exc":
            if r[1].cls != "ValueError":
                unexpected(ex, r)
            ex.check("batches of equal dimension are accepted", zi(d) != zi(e))
            reached(ex)
            return
        ex.check("unequal dimensions are rejected", zi(d) == zi(e))
        w = r[1]
        if not isinstance(w, VArr) or len(w.d["s"][0]) != 2:
            ex.check("the result is a matrix", False)
            return
        s = w.d["s"]
        ex.check("one row per vector of the first, one column per vector of the second batch", z3.And(zi(s[0][0]) == zi(p), zi(s[0][1]) == zi(q)))
        i, j = ex.fresh("i", I), ex.fresh("j", I)
        ca, cb = ex.arr_box(a), ex.arr_box(b)
        x = zr(s[1](i, j))
        rng = z3.And(0 <= i, i < zi(p), 0 <= j, j < zi(q))
        ex.check("entry (i, j) is the similarity of vectors i and j", IMP(rng, x == CS(arow(ca, i), arow(cb, j))))
        ex.check("similarity lies between -1 and 1", IMP(rng, z3.And(x >= -1, x <= 1)))
        reached(ex)
    ex.explore(thunk, "batch_cosine_similarity")
