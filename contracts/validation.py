"""Validators (U01)."""
from .common import *
from pyvc.repo import VFunc

VAL = "valori.utils.validation."
VERR = "valori.exceptions.ValidationError"
ANY = TObj("PyAny")
DT = lambda c: F("dtype_of", Arr, Obj)(c)
NUMERIC = lambda d: z3.Or(F("np_number", Obj, B)(d), d == z3.Const("lib:numpy.bool_", Obj))
NAN, INF = (lambda c, i, j: F("nan_at", Arr, I, I, B)(c, i, j)), (lambda c, i, j: F("inf_at", Arr, I, I, B)(c, i, j))
IS = lambda n, x: F("isinst_" + n, Obj, B)(x)
PYSTR = lambda x: F("py_str", Obj, Str)(x)
STRIP = lambda s: F("str_strip", Str, Str)(s)
NUMVAL = lambda x: F("py_num", Obj, R)(x)
JSON = lambda x: F("json_serializable", Obj, B)(x)


def val_setup(ex):
    setup(ex)
    plain_attr = type(ex).arr_attr

    def attr(v, name, node=None):
        if name == "dtype" and v.d["s"][3] is not None:
            return VOpaque(DT(ex.arr_box(v)), "dtype")
        return plain_attr(ex, v, name, node)
    ex.arr_attr = attr

    def elements(args, f, node):
        v = ex.unopt(args[0], node)
        if not isinstance(v, VArr) or len(v.d["s"][0]) > 2 or (v.ref is None and v.d["s"][3] is None):
            raise Unsupported("NaN test of a derived array")
        c = ex.arr_box(v)
        ex.need(NUMERIC(DT(c)), "TypeError", node, "NaN test of a non-numeric array")
        return VArr(v.d["s"][0], lambda *i: f(c, zi(i[0]), zi(i[1]) if len(i) > 1 else z3.IntVal(-1)), "b")
    ex.lib_numpy_isnan = lambda args, kw, node: elements(args, NAN, node)
    ex.lib_numpy_isinf = lambda args, kw, node: elements(args, INF, node)
    ex.lib_numpy_isfinite = lambda args, kw, node: elements(args, lambda c, i, j: z3.Not(z3.Or(NAN(c, i, j), INF(c, i, j))), node)

    def issubdtype(args, kw, node):
        if isinstance(args[0], VOpaque) and isinstance(args[1], VLib) and args[1].name.split(".")[-1] == "number":
            return F("np_number", Obj, B)(args[0].term)
        raise Unsupported("issubdtype")
    ex.lib_numpy_issubdtype = issubdtype

    def any_attr(e, o, name, node):
        if name == "strip":
            def run(e2, args, kw, n):
                e2.need(IS("str", o.term), "AttributeError", n, "strip of a non-string")
                return F("str_strip", Str, Str)(PYSTR(o.term))
            return VPy(run, name)
        raise Unsupported("attribute %s of an arbitrary value" % name)
    ex.ifaces["PyAny"] = any_attr

    def compare(o, a, b, node):
        t = []
        for x in (a, b):
            if isinstance(x, VOpaque) and x.kind == "PyAny":
                ex.need(z3.Or(IS("int", x.term), IS("float", x.term)), "TypeError", node, "ordering of a non-number")
                t.append(NUMVAL(x.term))
            elif isnum(x):
                t.append(zr(x))
            else:
                raise Unsupported("comparison of an arbitrary value")
        x, y = t
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
    ex.opaque_compare = compare

    def dumps(args, kw, node):
        v = args[0]
        if not (isinstance(v, VOpaque) and v.kind == "PyAny"):
            raise Unsupported("json.dumps of this value")
        if ex.pure:
            raise NeedFork()
        if not ex.branch(JSON(v.term)):
            raise PyRaise(VExc(("TypeError", "ValueError", "RecursionError")[ex.choose(3)], ("not serializable",)), getattr(node, "lineno", None))
        return ex.fresh("json", Str)
    ex.lib_json_dumps = dumps
    x = z3.Const("x!vs", Obj)
    for a, b in (("str", "int"), ("str", "float"), ("int", "float"), ("dict", "str"), ("list", "str"), ("dict", "list")):
        ex.raw_fact(forall(x, z3.Not(z3.And(IS(a, x), IS(b, x))), IS(a, x), IS(b, x)))


def fn(ex, name):
    f = ex.repo.dotted(VAL + name)
    if not isinstance(f, VFunc):
        raise Unsupported("function %s not found" % name)
    return f


def a_value(ex, *excluded):
    x = ex.fresh("value", Obj)
    for t in excluded:
        ex.fact(z3.Not(IS(t, x)))
    return VOpaque(x, "PyAny")


def opt_int(ex, name):
    return VOpt(ex.fresh(name + "_none", B), ex.fresh(name, I))


def run(ex, name, args, kw, valid):
    """The validator returns True exactly for valid arguments and raises ValidationError for all others."""
    r = outcome(ex, lambda: ex.call(fn(ex, name), args, kw))
    if r[0] == "exc":
        if not exc_is(ex, r[1], VERR):
            unexpected(ex, r)
        ex.check("valid arguments are accepted", NOT(valid()), where(r))
    else:
        ex.check("True is returned", r[1] is True or (is_z3(r[1]) and zb(r[1])))
        ex.check("invalid arguments are rejected", valid())
    reached(ex)


def arr_value(ex, name):
    nd = ex.choose(4)
    if nd == 1:
        return arg_vec(ex, name), 1
    v = ex.fresh_mat(2, "f", name) if nd == 2 else VArr([ex.fresh("d", I) for _ in range(nd)], lambda *i: z3.RealVal(0), "f")
    if nd == 2:
        for n in v.d["s"][0]:
            ex.fact(zi(n) >= 0)
    return v, nd


def array_unit(name, want, batch):
    @unit("validation." + name, "U01")
    def u(ex):
        def thunk():
            val_setup(ex)
            if ex.choose(2):
                run(ex, name, [a_value(ex, "ndarray")], {}, lambda: z3.BoolVal(False))
                return
            v, nd = arr_value(ex, "vector")
            lo, hi = opt_int(ex, "min_dim"), opt_int(ex, "max_dim")
            dt = VOpt(ex.fresh("dtype_none", B), VOpaque(ex.fresh("dtype", Obj), "dtype"))
            az = ex.fresh("allow_zero", B)
            kw = {"min_dim": lo, "max_dim": hi, "dtype": dt, "allow_zero": az}
            if batch:
                kw["consistent_dims"] = ex.fresh("consistent_dims", B)
            if nd != want:
                run(ex, name, [v], kw, lambda: z3.BoolVal(False))
                return
            s = v.d["s"]
            c = ex.arr_box(v)
            dims = [zi(n) for n in s[0]]
            d = dims[-1]
            i, j = z3.Int("i!va"), z3.Int("j!va")
            jj = j if batch else z3.IntVal(-1)
            el = zr(s[1](i, j)) if batch else at1(c, i)
            ix = [i, j] if batch else [i]
            rng = z3.And(*[z3.And(0 <= q, q < n) for q, n in zip(ix, dims)])
            ex.fact(forall(ix, IMP(z3.Or(NAN(c, i, jj), INF(c, i, jj)), el != 0), NAN(c, i, jj), INF(c, i, jj)))
            finite = z3.ForAll(ix, IMP(rng, z3.Not(z3.Or(NAN(c, i, jj), INF(c, i, jj)))))
            nonzero = z3.ForAll([i], IMP(z3.And(0 <= i, i < dims[0]), z3.Exists([j], z3.And(0 <= j, j < d, el != 0)))) if batch else z3.Exists([i], z3.And(rng, el != 0))
            H = ex.st.d["Hvec"]

            def valid():
                ex.check("the argument is not modified", ex.st.d["Hvec"] == H)
                return z3.And(*[n > 0 for n in dims], z3.Or(lo.isnone, d >= lo.value), z3.Or(hi.isnone, d <= hi.value),
                              z3.Or(dt.isnone, DT(c) == dt.value.term), NUMERIC(DT(c)), z3.Or(az, nonzero), finite)
            run(ex, name, [v], kw, valid)
        ex.explore(thunk, name)


array_unit("validate_vector", 1, False)
array_unit("validate_vectors", 2, True)


@unit("validation.validate_config", "U01")
def config_unit(ex):
    def thunk():
        val_setup(ex)
        if ex.choose(2):
            run(ex, "validate_config", [a_value(ex, "dict")], {}, lambda: z3.BoolVal(False))
            return
        conf = ex.havoc_value(TDict(TStr, ANY), "config")
        opt = lambda t, n: VOpt(ex.fresh(n + "_none", B), ex.havoc_value(t, n))
        req, alw = opt(TList(TStr), "required_keys"), opt(TList(TStr), "allowed_keys")
        typ, rng = opt(TDict(TStr, TObj("pytype")), "value_types"), opt(TDict(TStr, TTup(TReal, TReal)), "value_ranges")
        D, Mp = ex.dct(conf)[1], ex.dct(conf)[2]
        k, j = z3.Const("k!vc", Str), z3.Int("j!vc")
        rs, als, ts, gs = ex.lst(req.value), ex.lst(alw.value), ex.dct(typ.value), ex.dct(rng.value)
        has, val = lambda q: z3.Select(D, q), lambda q: z3.Select(Mp, q)
        tok = lambda q: IMP(has(q), F("isinst_of", Obj, Obj, B)(val(q), z3.Select(ts[2], q)))
        tt = TTup(TReal, TReal)
        lohi = lambda q: ex.unbox(tt, z3.Select(gs[2], q))
        gok = lambda q: IMP(z3.And(has(q), z3.Or(IS("int", val(q)), IS("float", val(q)))), z3.And(NUMVAL(val(q)) >= zr(lohi(q)[0]), NUMVAL(val(q)) <= zr(lohi(q)[1])))

        def valid():
            ex.check("the configuration is not modified", z3.And(ex.dct(conf)[1] == D, ex.dct(conf)[2] == Mp))
            return z3.And(z3.Or(req.isnone, z3.ForAll([j], IMP(z3.And(0 <= j, j < rs[1]), has(rs[2](j))))),
                          z3.Or(alw.isnone, z3.ForAll([k], IMP(has(k), z3.Exists([j], z3.And(0 <= j, j < als[1], als[2](j) == k))))),
                          z3.Or(typ.isnone, z3.ForAll([k], IMP(z3.Select(ts[1], k), tok(k)))),
                          z3.Or(rng.isnone, z3.ForAll([k], IMP(z3.Select(gs[1], k), gok(k)))))

        def pool(L):
            if L.i is None:
                return
            try:
                x = L.it.at(j)
                q = x[0] if isinstance(x, tuple) else x
            except (Unsupported, TypeError, KeyError):
                return
            if not is_sort(q, Str):
                return
            done = z3.And(0 <= j, j < L.i)
            yield "cfg:types", forall(j, IMP(done, tok(q)), q)
            yield "cfg:ranges", forall(j, IMP(done, gok(q)), q)
            yield "cfg:present", forall(j, IMP(done, has(q)), q)
            yield "cfg:allowed", forall(j, IMP(z3.And(done, has(q)), z3.Exists([z3.Int("b!vc")], z3.And(0 <= z3.Int("b!vc"), z3.Int("b!vc") < als[1], als[2](z3.Int("b!vc")) == q))), q)
        ex.loop_pools = [pool]
        run(ex, "validate_config", [conf], {"required_keys": req, "allowed_keys": alw, "value_types": typ, "value_ranges": rng}, valid)
    ex.explore(thunk, "validate_config")


METRICS = ("cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard")


@unit("validation.validate_metric", "U01")
def metric_unit(ex):
    def thunk():
        val_setup(ex)
        if ex.choose(2):
            run(ex, "validate_metric", [a_value(ex, "str")], {}, lambda: z3.BoolVal(False))
            return
        m = ex.fresh("metric", Str)
        run(ex, "validate_metric", [m], {}, lambda: z3.Or(*[m == lit(x) for x in METRICS]))
    ex.explore(thunk, "validate_metric")


@unit("validation.validate_k", "U01")
def k_unit(ex):
    def thunk():
        val_setup(ex)
        if ex.choose(2):
            run(ex, "validate_k", [a_value(ex, "int", "bool")], {}, lambda: z3.BoolVal(False))
            return
        k, mk = ex.fresh("k", I), opt_int(ex, "max_k")
        run(ex, "validate_k", [k, mk], {}, lambda: z3.And(k > 0, z3.Or(mk.isnone, k <= mk.value)))
    ex.explore(thunk, "validate_k")


def id_ok(x):
    return z3.Or(IS("int", x), z3.And(IS("str", x), slen(STRIP(PYSTR(x))) > 0))


@unit("validation.validate_id", "U01")
def id_unit(ex):
    def thunk():
        val_setup(ex)
        x = a_value(ex)
        run(ex, "validate_id", [x], {}, lambda: id_ok(x.term))
    ex.explore(thunk, "validate_id")


@unit("validation.validate_ids", "U01")
def ids_unit(ex):
    def thunk():
        val_setup(ex)
        if ex.choose(2):
            run(ex, "validate_ids", [a_value(ex, "list")], {}, lambda: z3.BoolVal(False))
            return
        l = ex.havoc_value(TList(ANY), "ids")
        s = ex.lst(l)
        i, j = z3.Int("i!vi"), z3.Int("j!vi")

        def valid():
            s2 = ex.lst(l)
            ex.check("the list is not modified", s2 is s or z3.And(zi(s2[1]) == zi(s[1]), forall(j, IMP(z3.And(0 <= j, j < zi(s[1])), s2[2](j) == s[2](j)), s[2](j))))
            return z3.And(zi(s[1]) > 0, z3.ForAll([j], IMP(z3.And(0 <= j, j < zi(s[1])), id_ok(s[2](j)))),
                          z3.ForAll([i, j], IMP(z3.And(0 <= i, i < j, j < zi(s[1])), s[2](i) != s[2](j))))

        def pool(L):
            if L.i is not None:
                yield "ids:ok", forall(j, IMP(z3.And(0 <= j, j < L.i), id_ok(s[2](j))), s[2](j))
                # ids seen so far: first is the first index of an element (definable for every list)
                first, x = F("first_index", Obj, I), z3.Const("x!vi", Obj)
                for n, (cell, t) in enumerate(L.info.mods.items()):
                    o = Val.registry[cell[0]]
                    if cell[1] == "s" and isinstance(o, VSet):
                        try:
                            dom = ex.sym_set(o, ANY)[1]
                        except Unsupported:
                            continue
                        if dom.sort().domain() != Obj:
                            continue
                        ex.fact(forall(j, IMP(z3.And(0 <= j, j < zi(s[1])), z3.And(0 <= first(s[2](j)), first(s[2](j)) <= j, s[2](first(s[2](j))) == s[2](j))), s[2](j)))
                        yield "seen:%d" % n, forall(j, IMP(z3.And(0 <= j, j < L.i), z3.Select(dom, s[2](j))), s[2](j))
                        yield "only:%d" % n, forall(x, IMP(z3.Select(dom, x), z3.And(0 <= first(x), first(x) < L.i, s[2](first(x)) == x)), z3.Select(dom, x))
                        yield "distinct", forall([i, j], IMP(z3.And(0 <= i, i < j, j < L.i), s[2](i) != s[2](j)), (s[2](i), s[2](j)))
        ex.loop_pools = [pool]
        run(ex, "validate_ids", [l], {}, valid)
    ex.explore(thunk, "validate_ids")


@unit("validation.validate_metadata", "U01")
def meta_unit(ex):
    def thunk():
        val_setup(ex)
        c = ex.choose(3)
        if c == 0:
            run(ex, "validate_metadata", [None], {}, lambda: z3.BoolVal(True))
            return
        if c == 1:
            run(ex, "validate_metadata", [a_value(ex, "dict")], {}, lambda: z3.BoolVal(False))
            return
        m = ex.havoc_value(TDict(ANY, ANY), "metadata")
        D, Mp = ex.dct(m)[1], ex.dct(m)[2]
        k, j = z3.Const("k!vm", Obj), z3.Int("j!vm")
        ok = lambda q: z3.And(IS("str", q), JSON(z3.Select(Mp, q)))

        def valid():
            ex.check("the metadata is not modified", z3.And(ex.dct(m)[1] == D, ex.dct(m)[2] == Mp))
            return z3.ForAll([k], IMP(z3.Select(D, k), ok(k)))

        def pool(L):
            if L.i is None:
                return
            try:
                x = L.it.at(j)
            except Unsupported:
                return
            q = x[0] if isinstance(x, tuple) else x
            if isinstance(q, VOpaque):
                yield "meta:ok", forall(j, IMP(z3.And(0 <= j, j < L.i), ok(q.term)), q.term)
                yield "meta:str", forall(j, IMP(z3.And(0 <= j, j < L.i), IS("str", q.term)), q.term)
        ex.loop_pools = [pool]
        run(ex, "validate_metadata", [m], {}, valid)
    ex.explore(thunk, "validate_metadata")
