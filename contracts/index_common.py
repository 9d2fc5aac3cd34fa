"""Shared contract of the storage-backed indices (flat, HNSW, IVF): arguments, ghost state, insert/delete/update specs."""
from .common import *

CONF_TYPES = {"metric": TStr}
IERR = "valori.exceptions.ValoriIndexError"


def cosd(q, v):
    return 1 - F("cossim", Arr, Arr, R)(q, v)


def eucd(q, v):
    return F("eucdist", Arr, Arr, R)(q, v)


class IndexModel:
    """Invariant and ghost state of one index object; subclasses add their own structure."""
    fields = ()

    def __init__(self, ex, obj, sb):
        self.ex, self.o, self.sb = ex, obj, sb
        self.D = ex.fresh("DIM", I)
        ex.fact(self.D >= 1)
        self.pre = None

    def S(self):
        return store_of(self.sb)

    def init(self):
        return self.ex.truth(self.o.d["_initialized"])

    def store_inv(self):
        s, k = self.S(), z3.Const("k!d", Str)
        yield "all live vectors have one dimension", "", forall(k, IMP(s.has(k), adim(s.v(k), 0) == self.D), s.v(k))
        yield "the empty id is never live", "", z3.Not(s.has(lit("")))

    def inv(self):
        return []

    def all_inv(self):
        yield from self.store_inv()
        yield from self.inv()

    def assume(self):
        for nm, ps, f in self.all_inv():
            self.ex.fact(f)

    def check(self, what, props=None):
        for nm, ps, f in self.all_inv():
            p = tuple(ps.split()) if ps else props
            self.ex.check("invariant after %s: %s" % (what, nm), f, "", p)

    def dist(self, q, v):
        return z3.If(zs(self.ex, self.o.d["metric"]) == lit("euclidean"), eucd(q, v), cosd(q, v))

    def inv_pool(self, L):
        for nm, ps, f in self.all_inv():
            yield "inv:" + nm, f


def zs(ex, x):
    return ex.S(ex.unopt(x))


def index_setup(ex, dotted, model, conf=None, fresh=False, assume=True):
    """An index object in an arbitrary state satisfying the invariant (or as built when fresh)."""
    setup(ex)
    o, c = build(ex, dotted, conf or VConf(types=dict(CONF_TYPES)))
    sb = abs_store(ex, "Storage", "S", init=True)
    ex.ifaces["Storage"] = storage_iface
    if "metric" in o.d:
        mt = zs(ex, o.d["metric"])
        ex.fact(z3.Or(mt == lit("cosine"), mt == lit("euclidean")))
    M = model(ex, o, sb)
    # assumption: uuid4 never returns an id that is in use

    def fresh_id(e=ex):
        u = ex.fresh("uuid", Obj)
        for f in ("str_of_uuid", "uuid_hex"):
            s = F(f, Obj, Str)(u)
            ex.fact(z3.Not(M.S().has(s)))
            M.fresh_id(s)
            ex.fact(slen(s) > 0)
            ex.fact(s != lit(""))
        return u
    ex.fresh_uuid = fresh_id
    if not fresh:
        o.d["storage_backend"] = sb
        o.d["_initialized"] = ex.fresh("initialized", B)
        M.havoc()
        havoc_unknown(ex, o, set(M.fields) | {"storage_backend", "_initialized", "config", "metric"})
        if assume:
            M.assume()
    return o, M


def havoc_unknown(ex, o, known):
    from .storage import havoc_rest
    havoc_rest(ex, o, known)


def arg_mat(ex, name="vectors", nd=2):
    r = ex.fresh(name, I)
    ex.fact(z3.And(r >= 0, r < ex.st.d["alloc"], client(r)))
    c = ex.vec_at(r)
    v = ex.arr_from_box(c, nd)
    v.ref = r
    return v


def arg_metas(ex, name="metadata"):
    """Optional list of optional dictionaries."""
    t = TList(TOpt(TMeta))
    l = ex.havoc_value(t, name)
    n, at = ex.lst(l)[1], ex.lst(l)[2]
    j = z3.Int("j!md")
    tt = TOpt(TMeta)
    ex.fact(forall(j, IMP(z3.Not(tt.is_none(at(j))), z3.And(client(tt.val(at(j))), tt.val(at(j)) >= 0, tt.val(at(j)) < ex.st.d["alloc"])), at(j)))
    return VOpt(ex.fresh(name + "_none", B), l)


def arg_ids(ex, name="ids"):
    return ex.havoc_value(TList(TStr), name)


class MetaSpec:
    """Content of the i-th metadata entry of a batch (NOMETA when missing)."""

    def __init__(self, ex, md):
        self.ex, self.none = ex, md.isnone
        s = ex.lst(md.value)
        self.n, self.at = s[1], s[2]
        self.H = ex.st.d["Hmeta"]

    def __call__(self, j):
        t = TOpt(TMeta)
        x = self.at(j)
        return z3.If(z3.Or(zb(self.none), j >= self.n, t.is_none(x)), NOMETA, z3.Select(self.H, t.val(x)))


def insert_pool(M, pre, V, mspec):
    """Candidates relating the growing id list with the storage."""
    ex = M.ex
    H0 = ex.st.d["Hvec"]
    rows = lambda j: arow(ex.arr_box(V), j)
    Lt = TList(TStr)

    def pool(L):
        s = M.S()
        j, k = z3.Int("j!ins"), z3.Const("k!ins", Str)
        for nm, st, p in ex.typed_lists(L):
            # lists of ids that start empty in this call
            if st[3] != TStr or p is None or not (isinstance(ex.list_len(p), int) and ex.list_len(p) == 0):
                continue
            ex.mem_axioms(Lt)
            b = ex.boxed(st)
            n, at, mem, dis = st[1], st[2], (lambda q, b=b: ex.MEM(Lt)(b, q)), ex.DISTINCT(Lt)(b)
            rng = z3.And(0 <= j, j < n)
            tr = at(j)
            yield nm + ":live", forall(j, IMP(rng, s.has(at(j))), tr)
            yield nm + ":new", forall(j, IMP(rng, z3.Not(pre.has(at(j)))), tr)
            yield nm + ":vec", forall(j, IMP(rng, s.v(at(j)) == rows(j)), tr)
            yield nm + ":meta", forall(j, IMP(rng, s.m(at(j)) == mspec(j)), tr)
            yield nm + ":dom", forall(k, s.has(k) == z3.Or(pre.has(k), mem(k)), s.has(k), mem(k))
            yield nm + ":distinct", dis
            for cname, v in list(M.o.d.items()):
                if isinstance(v, VDict) and cname in M.fields and "cache" in cname:
                    try:
                        sc = ex.sym_dict(v, TStr, TArr)
                    except Unsupported:
                        continue
                    yield "%s:in %s" % (nm, cname), forall(j, IMP(rng, z3.Select(sc[1], at(j))), tr)
            yield nm + ":memnew", forall(k, IMP(mem(k), z3.Not(pre.has(k))), mem(k))
        yield "frame:has", forall(k, IMP(pre.has(k), s.has(k)), pre.has(k), s.has(k))
        yield "frame:vec", forall(k, IMP(pre.has(k), s.v(k) == pre.v(k)), s.v(k))
        yield "frame:meta", forall(k, IMP(pre.has(k), s.m(k) == pre.m(k)), s.m(k))
        Hm, Hm0 = ex.st.d["Hmeta"], mspec.H
        r = z3.Int("r!ins")
        al0 = M.alloc0
        yield "args:meta", forall(r, IMP(r < al0, z3.Select(Hm, r) == z3.Select(Hm0, r)), z3.Select(Hm, r))
        Hv = ex.st.d["Hvec"]
        yield "args:vec", forall(r, IMP(r < al0, z3.Select(Hv, r) == z3.Select(H0, r)), z3.Select(Hv, r))
        yield "args:vecclient", forall(r, IMP(client(r), z3.Select(Hv, r) == z3.Select(H0, r)), z3.Select(Hv, r))
        yield "args:metaclient", forall(r, IMP(client(r), z3.Select(Hm, r) == z3.Select(Hm0, r)), z3.Select(Hm, r))
    return pool


def check_insert(ex, M, res, pre, V, mspec, n):
    if not isinstance(res, VList):
        raise Unsupported("insert result")
    s = M.S()
    ln = ex.list_len(res)
    P = ("I08",)
    ex.check("one id per inserted vector", zi(ln) == zi(n), "", P)
    st = ex.lst(res)
    k = ex.fresh("anyid", Str)
    if st[0] == "c":
        if st[1]:
            raise Unsupported("insert result")
    else:
        i, j = ex.fresh("i", I), ex.fresh("j", I)
        rng = z3.And(0 <= i, i < zi(ln))
        a = st[2](i)
        ex.check("new ids were not live before", IMP(rng, z3.Not(pre.has(a))), "", P)
        ex.check("new ids are live", IMP(rng, s.has(a)), "", ("I08", "I02"))
        ex.check("the i-th id denotes the i-th vector", IMP(rng, s.v(a) == arow(ex.arr_box(V), i)), "", ("I08",))
        ex.check("the i-th id denotes the i-th metadata", IMP(rng, s.m(a) == mspec(i)), "", ("I08",))
        ex.check("ids are distinct", IMP(z3.And(rng, 0 <= j, j < zi(ln), st[2](j) == a), i == j), "", P)
    ex.check("earlier vectors stay", IMP(pre.has(k), z3.And(s.has(k), s.v(k) == pre.v(k), s.m(k) == pre.m(k))), "", ("I08", "I02"))


def insert_unit(name, dotted, model, props, setup_fn=index_setup, pools=(), **kw):
    @unit(name + ".insert", props, **kw)
    def run(ex):
        def thunk():
            o, M = setup_fn(ex, dotted, model)
            V = arg_mat(ex)
            n, d = V.d["s"][0]
            ex.fact(d == M.D)
            md = arg_metas(ex)
            M.alloc0 = ex.st.d["alloc"]
            mspec = MetaSpec(ex, md)
            pre = M.S()
            M.pre = pre
            ex.loop_pools = [M.inv_pool, insert_pool(M, pre, V, mspec)] + [p(M, pre) for p in pools]
            r = call(ex, o, "insert", V, md)
            if r[0] == "exc":
                if not ex.branch(zb(M.init())):
                    ex.check("an uninitialized index refuses insert", exc_is(ex, r[1], IERR))
                    reached(ex)
                    return
                unexpected(ex, r)
            ex.check("an uninitialized index refuses insert", zb(M.init()))
            check_insert(ex, M, r[1], pre, V, mspec, n)
            M.check("insert")
            reached(ex)
        ex.explore(thunk, "insert")
    return run


class DelGhost:
    """DEL(i, k): some of the first i ids equals k.  OK(i): each of the first i ids was present at its turn."""

    def __init__(self, ex, ids, pre):
        self.ex, self.pre = ex, pre
        s = ex.lst(ids)
        self.n, self.at = s[1], s[2]
        ex.nf += 1
        self.DELf, self.OKf = F("DEL!%d" % ex.nf, I, Str, B), F("DOK!%d" % ex.nf, I, B)

    def DEL(self, i, k):
        return self.DELf(zi(i), k)

    def OK(self, i):
        return self.OKf(zi(i))

    def define(self, i):
        """Definitional facts of the recursion at i (sound anywhere)."""
        ex = self.ex
        k = z3.Const("k!del", Str)
        i = z3.simplify(zi(i))
        ex.raw_fact(forall(k, z3.Not(self.DEL(0, k)), self.DEL(0, k)))
        ex.raw_fact(self.OK(0))
        ex.raw_fact(IMP(i >= 0, forall(k, self.DEL(i + 1, k) == z3.Or(self.DEL(i, k), self.at(i) == k), self.DEL(i + 1, k), self.DEL(i, k))))
        ex.raw_fact(IMP(i >= 0, self.OK(i + 1) == z3.And(self.OK(i), self.pre.has(self.at(i)), z3.Not(self.DEL(i, self.at(i))))))


def delete_pool(M, g):
    ex = M.ex

    def pool(L):
        if L.i is None:
            return
        i = L.i
        g.define(i)
        s, pre = M.S(), g.pre
        k = z3.Const("k!dp", Str)
        yield "del:dom", forall(k, s.has(k) == z3.And(pre.has(k), z3.Not(g.DEL(i, k))), s.has(k), g.DEL(i, k))
        yield "del:vec", forall(k, IMP(s.has(k), s.v(k) == pre.v(k)), s.v(k))
        yield "del:meta", forall(k, IMP(s.has(k), s.m(k) == pre.m(k)), s.m(k))
        for cell in L.info.mods:
            o = Val.registry[cell[0]]
            v = o.d.get(cell[1])
            if o is not ex.st and (isinstance(v, bool) or is_sort(v, B)):
                yield "del:ok:%d.%s" % cell, zb(v) == g.OK(i)
                yield "del:nok:%d.%s" % cell, zb(v) == z3.Not(g.OK(i))
    return pool


def delete_unit(name, dotted, model, props, setup_fn=index_setup, pools=(), **kw):
    @unit(name + ".delete", props, **kw)
    def run(ex):
        def thunk():
            o, M = setup_fn(ex, dotted, model)
            ids = arg_ids(ex)
            pre = M.S()
            M.pre = pre
            g = DelGhost(ex, ids, pre)
            g.define(z3.IntVal(0))
            ex.loop_pools = [M.inv_pool, delete_pool(M, g)] + [p(M, pre) for p in pools]
            r = call(ex, o, "delete", ids)
            if r[0] == "exc":
                if not ex.branch(zb(M.init())):
                    ex.check("an uninitialized index refuses delete", exc_is(ex, r[1], IERR))
                    reached(ex)
                    return
                unexpected(ex, r)
            ex.check("an uninitialized index refuses delete", zb(M.init()))
            s = M.S()
            k = ex.fresh("anyid", Str)
            n = zi(ex.list_len(ids))
            if not (isinstance(r[1], bool) or is_sort(r[1], B)):
                ex.check("delete reports a bool", False)
                raise PathEnd()
            ex.check("delete reports whether every id was present", zb(r[1]) == g.OK(n), "", ("I02",))
            ex.check("exactly the given ids are gone", s.has(k) == z3.And(pre.has(k), z3.Not(g.DEL(n, k))), "", ("I02", "I05"))
            ex.check("other ids keep vector and metadata", IMP(s.has(k), z3.And(s.v(k) == pre.v(k), s.m(k) == pre.m(k))), "", ("I02",))
            M.check("delete")
            reached(ex)
        ex.explore(thunk, "delete")
    return run


def update_unit(name, dotted, model, props, setup_fn=index_setup, pools=(), **kw):
    @unit(name + ".update", props, **kw)
    def run(ex):
        def thunk():
            o, M = setup_fn(ex, dotted, model)
            k0 = ex.fresh("id", Str)
            v = arg_vec(ex, d=M.D)
            md = arg_meta(ex)
            cv, cm = content_vec(ex, v), content_meta(ex, md)
            pre = M.S()
            M.pre = pre
            M.update_id = k0
            ex.loop_pools = [M.inv_pool] + [p(M, pre) for p in pools]
            frame0 = M.frame_state()
            r = call(ex, o, "update", k0, v, md)
            if r[0] == "exc":
                if not ex.branch(zb(M.init())):
                    ex.check("an uninitialized index refuses update", exc_is(ex, r[1], IERR))
                    reached(ex)
                    return
                unexpected(ex, r)
            ex.check("an uninitialized index refuses update", zb(M.init()))
            s = M.S()
            k = ex.fresh("anyid", Str)
            if not (isinstance(r[1], bool) or is_sort(r[1], B)):
                ex.check("update reports a bool", False)
                raise PathEnd()
            ex.check("update reports whether the id was present", zb(r[1]) == pre.has(k0), "", ("I02",))
            ex.check("update keeps the set of ids", s.has(k) == pre.has(k), "", ("I02",))
            ex.check("update changes the given id", IMP(pre.has(k0), z3.And(s.v(k0) == cv, s.m(k0) == cm)), "", ("I02",))
            ex.check("update changes no other id", IMP(z3.And(k != k0, s.has(k)), z3.And(s.v(k) == pre.v(k), s.m(k) == pre.m(k))), "", ("I02",))
            if frame0 is not None:
                ex.check("update of an absent id changes nothing", IMP(z3.Not(pre.has(k0)), frame0 == M.frame_state()), "", ("I02",))
            M.check("update")
            reached(ex)
        ex.explore(thunk, "update")
    return run


# ------------------------------------------------------------------ search results
def result_items(ex, res):
    """(length, id(j), distance(j), metadata content(j)) of a result list of dictionaries."""
    if not isinstance(res, VList):
        raise Unsupported("search result")
    st = ex.lst(res)
    if st[0] == "c":
        if st[1]:
            raise Unsupported("search result of fixed length")
        return 0, None, None, None
    t = st[3]
    if not isinstance(t, TRec) or not {"id", "distance", "metadata"} <= set(t.fields):
        raise Unsupported("search result items %s" % t)
    fs = list(t.fields)
    return st[1], *[rec_get(ex, t, st[2], f) for f in ("id", "distance")], rec_meta(ex, t, st[2], "metadata")


def rec_get(ex, t, at, f):
    i = list(t.fields).index(f)
    ft = t.fields[f]

    def get(j):
        x = ex.acc(t, i, at(j))
        if isinstance(ft, TOpt):
            return ft.val(x)
        return zr(x) if ft in (TReal, TInt) else x
    return get


def rec_meta(ex, t, at, f):
    i = list(t.fields).index(f)
    ft = t.fields[f]

    def get(j, H=None):
        x = ex.acc(t, i, at(j))
        H = ex.st.d["Hmeta"] if H is None else H
        if ft.name == "None":
            return NOMETA
        if isinstance(ft, TOpt):
            return z3.If(ft.is_none(x), NOMETA, z3.Select(H, ft.val(x)))
        if ft == TMeta:
            return z3.Select(H, x)
        raise Unsupported("metadata field of type %s" % ft)
    return get


def locals_lists(ex, t):
    out = []
    for k, v in ex.frame.env.d.items():
        if isinstance(v, VList) and ex.lst(v)[0] == "s" and ex.lst(v)[3] == t:
            out.append((k, ex.lst(v)))
    return out


def search_pool(M, q, spec_dist=None):
    """Candidates for the loops of a search: candidate lists and result records."""
    ex = M.ex
    dist = spec_dist or M.dist

    def pool(L):
        s = M.S()
        j, k = z3.Int("j!se"), z3.Int("k!se")
        H = ex.st.d["Hvec"]
        Hm = ex.st.d["Hmeta"]
        strs, arrs, recs = [], [], []
        for nm, st, p in ex.typed_lists(L):
            if p is None or not (isinstance(ex.list_len(p), int) and ex.list_len(p) == 0):
                continue
            if st[3] == TStr:
                strs.append((nm, st))
            elif st[3] == TArr:
                arrs.append((nm, st))
            elif isinstance(st[3], TRec):
                recs.append((nm, st))
        for nm, st in strs:
            rng = z3.And(0 <= j, j < st[1])
            yield nm + ":live", forall(j, IMP(rng, s.has(st[2](j))), st[2](j))
            if L.it is not None:
                try:
                    x = L.it.at(j)
                except Exception:
                    x = None
                if is_sort(x, Str):
                    yield nm + ":src", forall(j, IMP(rng, st[2](j) == x), st[2](j), x)
        for nm, st in arrs:
            rng = z3.And(0 <= j, j < st[1])
            yield nm + ":alloc", forall(j, IMP(rng, z3.And(st[2](j) >= 0, st[2](j) < ex.st.d["alloc"])), st[2](j))
            for nb, sb in strs + locals_lists(ex, TStr):
                yield "%s:%s:vec" % (nm, nb), forall(j, IMP(rng, z3.Select(H, st[2](j)) == s.v(sb[2](j))), st[2](j), sb[2](j))
        for nm, st in recs:
            t = st[3]
            rng = z3.And(0 <= j, j < st[1])
            src = None
            if L.it is not None:
                try:
                    src = ex.unopt(L.it.at(j))
                except Exception:
                    src = None
            for f, ft in t.fields.items():
                g = rec_get(ex, t, st[2], f) if ft.name not in ("Meta",) and not (isinstance(ft, TOpt)) else None
                if ft == TStr:
                    yield "%s.%s:live" % (nm, f), forall(j, IMP(rng, s.has(g(j))), st[2](j))
                    if is_sort(src, I):
                        for nb, sb in locals_lists(ex, TStr):
                            yield "%s.%s:%s" % (nm, f, nb), forall(j, IMP(rng, g(j) == sb[2](src)), st[2](j), src, sb[2](src))
                    if isinstance(src, tuple):
                        for q_, y in enumerate(src):
                            if is_sort(y, Str):
                                yield "%s.%s:src%d" % (nm, f, q_), forall(j, IMP(rng, g(j) == y), st[2](j), y)
                    for f2, ft2 in t.fields.items():
                        if ft2 == TReal:
                            g2 = rec_get(ex, t, st[2], f2)
                            yield "%s.%s:dist" % (nm, f2), forall(j, IMP(rng, g2(j) == dist(q, s.v(g(j)))), st[2](j))
                        if ft2 == TMeta or isinstance(ft2, TOpt) and ft2.t == TMeta or ft2.name == "None":
                            g2 = rec_meta(ex, t, st[2], f2)
                            yield "%s.%s:meta" % (nm, f2), forall(j, IMP(rng, g2(j, Hm) == s.m(g(j))), st[2](j))
                if ft == TMeta or isinstance(ft, TOpt) and ft.t == TMeta:
                    i = list(t.fields).index(f)
                    x = ex.acc(t, i, st[2](j))
                    if isinstance(ft, TOpt):
                        rr, c = ft.val(x), z3.Not(ft.is_none(x))
                    else:
                        rr, c = x, True
                    yield "%s.%s:alloc" % (nm, f), forall(j, IMP(z3.And(rng, zb(c)), z3.And(rr >= 0, rr < ex.st.d["alloc"])), st[2](j))
                if ft == TReal:
                    if is_sort(src, I):
                        for nb, a in ex.frame.env.d.items():
                            if isinstance(a, VArr) and len(a.d["s"][0]) == 1 and a.d["s"][2] == "f":
                                yield "%s.%s:=%s" % (nm, f, nb), forall(j, IMP(rng, g(j) == a.d["s"][1](src)), st[2](j))
                    if isinstance(src, tuple):
                        for q_, y in enumerate(src):
                            if is_sort(y, R):
                                yield "%s.%s:src%d" % (nm, f, q_), forall(j, IMP(rng, g(j) == y), st[2](j), y)
        al = M.alloc0
        yield "heap:vec", forall(j, IMP(j < al, z3.Select(H, j) == z3.Select(M.Hv0, j)), z3.Select(H, j))
        yield "heap:meta", forall(j, IMP(j < al, z3.Select(Hm, j) == z3.Select(M.Hm0, j)), z3.Select(Hm, j))
    return pool


def pair_lists(ex, L):
    """Lists of (id, distance) pairs: the modified ones and those held by locals.  [(name, length, id(j), dist(j), pattern(j), modified)]"""
    out, done = [], set()

    def add(nm, st, mod):
        t = st[3]
        if not isinstance(t, TTup):
            return
        si = [i for i, x in enumerate(t.ts) if x == TStr]
        di = [i for i, x in enumerate(t.ts) if x == TReal]
        if len(si) != 1:
            return
        at = st[2]
        out.append((nm, zi(st[1]), lambda j: ex.acc(t, si[0], at(zi(j))), (lambda j: ex.acc(t, di[0], at(zi(j)))) if len(di) == 1 else None, at, mod))
    for nm, v, p in ex.lists_of(L):
        done.add(v.sid)
    for nm, st, p in ex.typed_lists(L):
        add(nm, st, True)
    for nm, v in ex.frame.env.d.items():
        if isinstance(v, VList) and v.sid not in done:
            st = ex.lst(v)
            if st[0] == "c" and st[1] and isinstance(st[1][0], tuple):
                st = ex.sym_list(st)
            if st[0] == "s":
                add(nm, st, False)
    return out


def pairs_pool(M, q, alive=None):
    """Candidate lists of a search: live ids with their true distances, no id twice (within and across lists)."""
    ex = M.ex

    def pool(L):
        s = M.S()
        j, k = z3.Int("j!pp"), z3.Int("k!pp")
        ls = pair_lists(ex, L)
        x = z3.Const("x!pp", Str)
        sets = []
        for nm, v in ex.frame.env.d.items():
            if isinstance(v, VSet):
                t = ex.sset(v)
                if t[0] == "c":
                    if not t[1] or not all(isstr(y) for y in t[1]):
                        continue
                    t = ex.sym_set(v)
                if t[2] == TStr:
                    sets.append((nm, t[1]))
        for nm, n, gid, gd, at, mod in ls:
            if mod:
                rng = z3.And(0 <= j, j < n)
                yield nm + ":plive", forall(j, IMP(rng, s.has(gid(j))), at(j))
                if gd is not None:
                    yield nm + ":pdist", forall(j, IMP(rng, gd(j) == M.dist(q, s.v(gid(j)))), at(j))
                yield nm + ":pdistinct", forall([j, k], IMP(z3.And(rng, j < k, k < n), gid(j) != gid(k)), (at(j), at(k)))
                yield nm + ":pnonempty", n >= 1
            for sn, d in sets:
                yield "%s:pin %s" % (nm, sn), forall(j, IMP(z3.And(0 <= j, j < n), z3.Select(d, gid(j))), at(j))
        for (na, n, ga, _, aa, ma), (nb, m, gb, _, ab, mb) in itertools.combinations(ls, 2):
            if ma or mb:
                yield "%s/%s:pdisjoint" % (na, nb), forall([j, k], IMP(z3.And(0 <= j, j < n, 0 <= k, k < m), ga(j) != gb(k)), (aa(j), ab(k)))
    return pool


def check_results(ex, M, res, q, k, n, props, exact=None, dist=None, when=True, soft=False):
    """exact: properties under which the result must be the exact top k."""
    s = M.S()
    dist = dist or M.dist
    ln, gid, gd, gm = result_items(ex, res)
    ln = zi(ln)
    ex.check("at most k results", ln <= k, "", props)
    if gid is not None:
        # lemma (pigeonhole): distinct live ids are at most as many as there are live ids
        a, b = z3.Ints("a!ph b!ph")
        ex.fact(IMP(z3.And(forall(a, IMP(z3.And(0 <= a, a < ln), s.has(gid(a))), gid(a)),
                           forall([a, b], IMP(z3.And(0 <= a, a < b, b < ln), gid(a) != gid(b)), (gid(a), gid(b)))), ln <= n))
    ex.check("at most n results", ln <= n, "", props)
    if exact:
        if gid is not None and soft:
            # lemma (pigeonhole): a list in which every live id occurs is at least as long as there are live ids
            x, a = z3.Const("x!ph", Str), z3.Int("a!ph")
            ex.fact(IMP(forall(x, IMP(s.has(x), exists([a], z3.And(0 <= a, a < ln, gid(a) == x), gid(a))), s.has(x)), ln >= n))
        ex.check("min(k, n) results", IMP(when, ln == z3.If(k < n, k, n)), "", exact, soft=soft)
    if gid is None:
        return
    i, j = ex.fresh("i", I), ex.fresh("j", I)
    rng = z3.And(0 <= i, i < ln)
    ex.check("results are live", IMP(rng, s.has(gid(i))), "", props)
    ex.check("true distance of each result", IMP(rng, gd(i) == dist(q, s.v(gid(i)))), "", props)
    ex.check("current metadata of each result", IMP(rng, gm(i) == s.m(gid(i))), "", props)
    ex.check("results are distinct", IMP(z3.And(0 <= i, i < j, j < ln), gid(i) != gid(j)), "", props)
    ex.check("results are ordered by distance", IMP(z3.And(0 <= i, i < j, j < ln), gd(i) <= gd(j)), "", props)
    if exact:
        x = ex.fresh("left_out", Str)
        jj = z3.Int("jj!lo")
        hyp = z3.And(s.has(x), forall(jj, IMP(z3.And(0 <= jj, jj < ln), gid(jj) != x), gid(jj)), rng)
        ex.check("nothing closer is left out", IMP(z3.And(hyp, zb(when)), gd(i) <= dist(q, s.v(x))), "", exact, soft=soft)


def search_unit(name, dotted, model, props, exact=None, setup_fn=index_setup, pools=(), atleast=None, when=None, **kw):
    @unit(name + ".search", props, **kw)
    def run(ex):
        def thunk():
            o, M = setup_fn(ex, dotted, model)
            q = arg_vec(ex, "query", M.D)
            k = ex.fresh("k", I)
            ex.fact(k >= 1)
            qc = content_vec(ex, q)
            pre = M.S()
            M.pre = pre
            w = when(M) if when else True
            M.alloc0, M.Hv0, M.Hm0 = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
            ex.loop_pools = [M.inv_pool, search_pool(M, qc)] + [p(M, pre, qc, k) for p in pools]
            r = call(ex, o, "search", q, k)
            if r[0] == "exc":
                if not ex.branch(zb(M.init())):
                    ex.check("an uninitialized index refuses search", exc_is(ex, r[1], IERR))
                    reached(ex)
                    return
                unexpected(ex, r)
            ex.check("an uninitialized index refuses search", zb(M.init()))
            n = ex.card(pre.dom)
            ps = tuple(p for p in props.split())
            check_results(ex, M, r[1], qc, k, n, ps, exact, when=w, soft=when is not None)
            if atleast:
                ex.check("a non-empty index returns something", IMP(n > 0, zi(ex.list_len(r[1])) >= 1), "", atleast)
            x = ex.fresh("anyid", Str)
            s = M.S()
            ex.check("search changes no data", z3.And(s.has(x) == pre.has(x), s.v(x) == pre.v(x), s.m(x) == pre.m(x)), "", ps)
            M.check("search")
            reached(ex)
        ex.explore(thunk, "search")
    return run


def lifecycle_unit(name, dotted, model, props, setup_fn=index_setup, pools=(), **kw):
    """A new or closed index, initialized on any storage, satisfies the invariant."""
    @unit(name + ".lifecycle", props, **kw)
    def run(ex):
        def thunk():
            c = ex.choose(2)
            if c == 0:
                o, M = setup_fn(ex, dotted, model, fresh=True)
                if ex.choose(2) == 1:           # a closed one
                    o.d["_initialized"] = False
                    M.havoc()
                    M.assume()
                ex.fact(z3.Not(zb(M.init())))
                s, k = M.S(), z3.Const("k!d", Str)
                for nm, _, f in M.store_inv():
                    ex.fact(f)
                M.alloc0, M.Hv0, M.Hm0 = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
                ex.loop_pools = [M.inv_pool] + [p(M, s) for p in pools]
                r = call(ex, o, "initialize", M.sb)
                if r[0] == "exc":
                    unexpected(ex, r)
                ex.check("the index is initialized", zb(M.init()))
                t = M.S()
                x = ex.fresh("anyid", Str)
                ex.check("initialize changes no data", z3.And(t.has(x) == s.has(x), t.v(x) == s.v(x), t.m(x) == s.m(x)))
                M.check("initialize")
            else:
                o, M = setup_fn(ex, dotted, model)
                r = call(ex, o, "close")
                if r[0] == "exc":
                    unexpected(ex, r)
                ex.check("a closed index is not initialized", NOT(zb(M.init())))
                M.check("close")
            reached(ex)
        ex.explore(thunk, "lifecycle")
    return run
