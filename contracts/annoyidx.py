"""AnnoyIndex (I07, I08)."""
from .index_common import *
from .lsh import LshView, RemGhost, arg_metalist, TVECS, TMETAS

ANN = "valori.indices.annoy.AnnoyIndex"
ACONF = {"metric": TStr, "num_trees": TInt, "search_k": TInt, "build_on_disk": TBool, "random_seed": TInt}


# ------------------------------------------------------------------ trusted contract of annoy.AnnoyIndex
def annoy_new(ex, args, kw, node):
    o = VObj("Annoy")
    o.d.update({"$f": args[0] if args else kw["f"], "$metric": args[1] if len(args) > 1 else kw.get("metric", "angular"), "$has": ex.empty_dom(I), "$vec": z3.Const("novecs", z3.ArraySort(I, Arr)), "$built": False, "$loaded": False})
    ex.ifaces["Annoy"] = annoy_attr
    return o


def any_annoy(ex, d, metric):
    o = VObj("Annoy")
    o.d.update({"$f": d, "$metric": metric, "$has": ex.fresh("ann_has", z3.ArraySort(I, B)), "$vec": ex.fresh("ann_vec", z3.ArraySort(I, Arr)),
                "$built": ex.fresh("ann_built", B), "$loaded": ex.fresh("ann_loaded", B)})
    ex.ifaces["Annoy"] = annoy_attr
    return o


def annoy_attr(ex, o, name, node):
    def gen(exc="Exception"):
        raise PyRaise(VExc(exc, ("annoy",)))

    def call(e, args, kw, n):
        if e.pure:
            raise NeedFork()
        if name == "add_item":
            i, v = zi(e.unopt(args[0])), content_vec(e, e.unopt(args[1]))
            e.need(i >= 0, "IndexError", n)
            if e.branch(zb(e.truth(o.d["$loaded"]))):
                gen()
            e.need(adim(v, 0) == zi(e.unopt(o.d["$f"])), "IndexError", n)
            e.set(o, "$has", z3.Store(o.d["$has"], i, True))
            e.set(o, "$vec", z3.Store(o.d["$vec"], i, v))
            return None
        if name == "build":
            if e.branch(z3.Or(zb(e.truth(o.d["$built"])), zb(e.truth(o.d["$loaded"])))):
                gen()
            e.set(o, "$built", True)
            return True
        if name == "save":
            return True
        if name == "load":
            e.set(o, "$loaded", True)
            e.set(o, "$built", True)
            return True
        if name == "unload":
            e.set(o, "$has", e.empty_dom(I))
            e.set(o, "$built", False)
            e.set(o, "$loaded", False)
            return True
        if name == "get_n_items":
            r = e.fresh("nitems", I)
            e.fact(r >= 0)
            return r
        if name == "get_nns_by_vector":
            v, k = content_vec(e, e.unopt(args[0])), zi(e.unopt(args[1]))
            e.need(adim(v, 0) == zi(e.unopt(o.d["$f"])), "IndexError", n)
            ids, ds = e.havoc_value(TList(TInt), "nns"), e.havoc_value(TList(TReal), "nnd")
            m, at = e.lst(ids)[1], e.lst(ids)[2]
            j, q = z3.Ints("j!nn q!nn")
            e.fact(z3.And(m == e.lst(ds)[1], m <= z3.If(k > 0, k, 0)))
            e.fact(forall(j, IMP(z3.And(0 <= j, j < m), at(j) >= 0), at(j)))
            e.fact(forall([j, q], IMP(z3.And(0 <= j, j < q, q < m), at(j) != at(q)), (at(j), at(q))))
            isdot = zb(e.eq(o.d["$metric"], "dot"))
            e.fact(forall(j, IMP(z3.And(0 <= j, j < m), z3.Or(isdot, e.lst(ds)[2](j) >= 0)), e.lst(ds)[2](j)))
            inc = kw.get("include_distances", args[3] if len(args) > 3 else False)
            return (ids, ds) if inc is True else ids
        raise Unsupported("annoy method " + name)
    return VPy(call, name)


Exec.lib_annoy_AnnoyIndex = annoy_new


class AnnModel:
    def __init__(self, ex, o):
        self.ex, self.o = ex, o

    def init(self):
        return zb(self.ex.truth(self.o.d["_initialized"]))

    def built(self):
        return zb(self.ex.truth(self.o.d["_built"]))

    def V(self):
        self.o.d.setdefault("hash_tables", VList(("c", [])))
        return LshView(self.ex, self.o)

    dim = None

    def dimension(self):
        d = self.o.d["dimension"]
        if d is None:
            return z3.BoolVal(True), z3.IntVal(0)
        if isinstance(d, VOpt):
            return zb(d.isnone), zi(d.value)
        return z3.BoolVal(False), zi(d)

    def ann(self):
        a = self.o.d.get("_annoy_index")
        if a is None:
            return z3.BoolVal(True), None
        if isinstance(a, VOpt):
            return zb(a.isnone), a.value
        return z3.BoolVal(False), a

    def havoc(self, ann):
        ex, o = self.ex, self.o
        o.d["vectors"] = ex.havoc_value(TVECS, "vectors")
        o.d["metadata"] = ex.havoc_value(TMETAS, "metadata")
        o.d["_next_id"] = ex.fresh("next_id", I)
        d = ex.fresh("dim", I)
        o.d["_initialized"] = ex.fresh("initialized", B)
        o.d["_built"] = ex.fresh("built", B)
        o.d["_temp_file"] = VOpt(ex.fresh("tmp_none", B), ex.fresh("tmp", Str))
        if ann:
            o.d["dimension"], o.d["_annoy_index"] = d, any_annoy(ex, d, o.d["metric"])
        else:
            o.d["dimension"], o.d["_annoy_index"] = None, None

    def inv(self):
        ex, v = self.ex, self.V()
        j = z3.Int("j!ai")
        al = ex.st.d["alloc"]
        dn, d = self.dimension()
        an, a = self.ann()
        nx = zi(self.o.d["_next_id"])
        yield "as many metadata entries as vectors", zi(v.ms[1]) == v.n
        yield "the next id is the number of vectors", nx == v.n
        yield "every live vector has metadata", forall(j, IMP(v.live(j), v.hasmeta(j)), v.vs[2](j), v.ms[2](j))
        yield "vectors are private", forall(j, IMP(v.live(j), z3.And(v.vref(j) >= 0, v.vref(j) < al, z3.Not(client(v.vref(j))))), v.vs[2](j))
        yield "metadata are private", forall(j, IMP(v.live(j), z3.And(v.mref(j) >= 0, v.mref(j) < al, z3.Not(client(v.mref(j))))), v.ms[2](j))
        yield "all vectors have the dimension of the index", forall(j, IMP(v.live(j), z3.And(z3.Not(dn), adim(v.vec(j), 0) == d)), v.vs[2](j))
        yield "there is a search structure once the dimension is known", dn == an
        yield "an index without dimension has never had vectors", IMP(dn, v.n == 0)
        if a is not None:
            yield "the search structure has the dimension of the index", IMP(z3.Not(an), zi(ex.unopt(a.d["$f"])) == d)
            yield "before the build every live vector is registered under its id", forall(j, IMP(z3.And(z3.Not(an), z3.Not(self.built()), v.live(j)), z3.And(
                z3.Select(a.d["$has"], j), z3.Select(a.d["$vec"], j) == v.vec(j))), v.vs[2](j))

    def assume(self):
        for nm, f in self.inv():
            self.ex.fact(f)

    def check(self, what):
        for nm, f in self.inv():
            self.ex.check("invariant after %s: %s" % (what, nm), f)

    def pool(self, L):
        ex = self.ex
        for nm, f in self.inv():
            yield "inv:" + nm, f
        r = z3.Int("r!lh")
        H, Hm = ex.st.d["Hvec"], ex.st.d["Hmeta"]
        yield "heap:vec", forall(r, IMP(r < self.al0, z3.Select(H, r) == z3.Select(self.H0, r)), z3.Select(H, r))
        yield "heap:meta", forall(r, IMP(r < self.al0, z3.Select(Hm, r) == z3.Select(self.Hm0, r)), z3.Select(Hm, r))
        an, a = self.ann()
        if a is not None and L.i is not None:
            yield "ann:loaded", IMP(L.i > 0, NOT(zb(ex.truth(a.d["$loaded"]))))
        i, j = L.i, z3.Int("j!ap")

    def mark(self):
        ex = self.ex
        self.al0, self.H0, self.Hm0 = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
        self.v0 = self.V()
        self.built0, self.init0 = self.built(), self.init()


def ann_setup(ex, fresh=False, assume=True):
    setup(ex)
    try:
        o, c = build(ex, ANN, VConf(types=dict(ACONF)))
    except PyRaise:
        raise PathEnd()
    M = AnnModel(ex, o)
    if not fresh:
        M.havoc(ex.choose(2) == 1)
        havoc_unknown(ex, o, {"vectors", "metadata", "_next_id", "dimension", "_initialized", "_built", "_temp_file", "_annoy_index", "annoy", "config", "storage_backend",
                              "metric", "num_trees", "search_k", "build_on_disk", "random_seed", "hash_tables"})
        if assume:
            M.assume()
    M.mark()
    return o, M


def same(ex, M, what):
    a, b = M.v0, M.V()
    j = ex.fresh("j", I)
    an, s = M.ann()
    ex.check("%s leaves the index as it was" % what, z3.And(a.live(j) == b.live(j), a.n == b.n, IMP(a.live(j), z3.And(a.vec(j) == b.vec(j), a.meta(j) == b.meta(j))),
                                                            M.built() == M.built0, M.init() == M.init0))


def aadd_pool(M, V, mc, n0):
    ex = M.ex
    rows = lambda q: arow(ex.arr_box(V), q)

    def pool(L):
        if L.i is None:
            return
        v, a, i, j = M.V(), M.v0, L.i, z3.Int("j!ap")
        yield "add:n", v.n == n0 + i
        yield "add:old", forall(j, IMP(z3.And(0 <= j, j < v.n, j < n0), z3.And(v.live(j) == a.live(j), IMP(a.live(j), z3.And(v.vec(j) == a.vec(j), v.meta(j) == a.meta(j))))), v.vs[2](j))
        yield "add:new", forall(j, IMP(z3.And(n0 <= j, j < v.n), z3.And(v.live(j), v.vec(j) == rows(j - n0), v.meta(j) == mc(j - n0))), v.vs[2](j))
        yield "add:dim", IMP(i > 0, zi(V.d["s"][0][1]) >= 1)
        for nm, st, p in ex.typed_lists(L):
            if st[3] == TInt and p is not None and isinstance(ex.list_len(p), int) and ex.list_len(p) == 0:
                yield nm + ":ids", forall(j, IMP(z3.And(0 <= j, j < st[1]), st[2](j) == n0 + j), st[2](j))
    return pool


def add_unit(name):
    strs = name == "insert"

    @unit("AnnoyIndex." + name, "I07 I08")
    def run(ex):
        def thunk():
            o, M = ann_setup(ex)
            V = arg_mat(ex)
            n, d = V.d["s"][0]
            md = arg_metalist(ex)
            H = ex.st.d["Hmeta"]
            mlen, mat = ex.lst(md)[1], ex.lst(md)[2]
            none = ex.fresh("metadata_none", B) if strs else False
            mc = lambda q: ITE(none, z3.Const("EMPTYMETA", MetaV), z3.Select(H, mat(q)))
            M.mark()
            n0 = M.v0.n
            dn, dim = M.dimension()
            an, s = M.ann()
            loaded = z3.And(z3.Not(an), zb(ex.truth(s.d["$loaded"]))) if s is not None else z3.BoolVal(False)
            ok = z3.And(M.init(), z3.Or(zb(none), zi(mlen) == zi(n)), z3.Or(dn, dim == zi(d)), z3.Or(zi(d) >= 1, zi(n) == 0))
            ex.loop_pools = [M.pool, aadd_pool(M, V, mc, n0)]
            r = call(ex, o, name, V, VOpt(none, md) if strs else md)
            if r[0] == "exc":
                ex.check("only bad batches are rejected", z3.Or(z3.Not(ok), loaded))
                same(ex, M, "a rejected %s" % name)
                M.check("a rejected " + name)
                reached(ex)
                return
            ex.check("bad batches are rejected", ok)
            res = r[1]
            if not isinstance(res, VList):
                raise Unsupported("result of add")
            ex.check("one id per vector", zi(ex.list_len(res)) == zi(n))
            v, a = M.V(), M.v0
            j, k = ex.fresh("j", I), ex.fresh("k", I)
            rng = z3.And(0 <= j, j < zi(n))
            if ex.lst(res)[0] == "s":
                at = ex.lst(res)[2](j)
                ex.check("the j-th id is the next unused one", IMP(rng, at == (ex.to_str(n0 + j) if strs else n0 + j)))
            ex.check("the j-th id denotes the j-th vector and metadata", IMP(rng, z3.And(v.live(n0 + j), v.vec(n0 + j) == arow(ex.arr_box(V), j), v.meta(n0 + j) == mc(j))))
            ex.check("the new ids were not live", IMP(rng, z3.Not(a.live(n0 + j))))
            ex.check("earlier vectors stay", IMP(a.live(k), z3.And(v.live(k), v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
            ex.check("nothing else appears", v.n == n0 + zi(n))
            M.check(name)
            reached(ex)
        ex.explore(thunk, name)
    return run


for _n in ("add", "insert"):
    add_unit(_n)


def rem_unit(name):
    strs = name == "delete"

    @unit("AnnoyIndex." + name, "I07")
    def run(ex):
        def thunk():
            o, M = ann_setup(ex)
            ids = ex.havoc_value(TList(TStr if strs else TInt), "ids")
            st = ex.lst(ids)
            num = F("str2int_", Str, I)
            isn = F("is_int_str", Str, B)
            at = (lambda i: num(st[2](i))) if strs else st[2]
            g = RemGhost(ex, st[1], at)
            g.define(z3.IntVal(0))
            q = z3.Int("q!dl")
            if strs:
                ex.fact(forall(q, IMP(z3.And(0 <= q, q < zi(st[1])), isn(st[2](q))), st[2](q)))     # precondition: ids of this index are numbers
            M.mark()

            def pool(L):
                if L.i is None:
                    return
                v, a, j = M.V(), M.v0, z3.Int("j!rp")
                g.define(L.i)
                yield "rm:n", v.n == a.n
                yield "rm:ids", forall(j, IMP(v.live(j), z3.And(a.live(j), v.vec(j) == a.vec(j), v.meta(j) == a.meta(j))), v.vs[2](j))
                yield "rm:live", forall(j, v.live(j) == z3.And(a.live(j), z3.Not(g(L.i, j))), v.vs[2](j), g(L.i, j))
                for nm, s2, p in ex.typed_lists(L):
                    if s2[3] == TInt:
                        yield nm + ":num", forall(j, IMP(z3.And(0 <= j, j < s2[1]), s2[2](j) == at(j)), s2[2](j))
            ex.loop_pools = [M.pool, pool]
            r = call(ex, o, name, ids)
            if r[0] == "exc":
                if not ex.branch(M.init()):
                    ex.check("an uninitialized index refuses " + name, exc_is(ex, r[1], IERR))
                    same(ex, M, "a rejected " + name)
                    reached(ex)
                    return
                unexpected(ex, r)
            a, v, k = M.v0, M.V(), ex.fresh("k", I)
            ex.check("exactly the given ids are gone", v.live(k) == z3.And(a.live(k), z3.Not(g(st[1], k))))
            ex.check("other ids keep vector and metadata", IMP(v.live(k), z3.And(v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
            M.check(name)
            reached(ex)
        ex.explore(thunk, name)
    return run


for _n in ("remove", "delete"):
    rem_unit(_n)


@unit("AnnoyIndex.update", "I07")
def update_unit_(ex):
    def thunk():
        o, M = ann_setup(ex)
        s = ex.fresh("id", Str)
        x = arg_vec(ex)
        md = arg_meta(ex)
        cv, cm = content_vec(ex, x), content_meta(ex, md)
        M.mark()
        a = M.v0
        dn, d = M.dimension()
        n = F("str2int_", Str, I)(s)
        an, sx = M.ann()
        loaded = z3.And(z3.Not(an), zb(ex.truth(sx.d["$loaded"]))) if sx is not None else z3.BoolVal(False)
        ok = z3.And(F("is_int_str", Str, B)(s), a.live(n), adim(cv, 0) == d, d >= 1)
        ex.loop_pools = [M.pool]
        r = call(ex, o, "update", s, x, md)
        v, k = M.V(), ex.fresh("k", I)
        if r[0] == "exc":
            ex.check("only bad updates are refused", z3.Or(z3.Not(ok), loaded))
            same(ex, M, "a rejected update")
            M.check("a rejected update")
            reached(ex)
            return
        ex.check("bad updates are refused", ok)
        ex.check("update reports success", zb(ex.truth(r[1])))
        ex.check("no id comes or goes", v.live(k) == a.live(k))
        ex.check("update changes the given id", z3.And(v.vec(n) == cv, v.meta(n) == z3.If(cm == NOMETA, a.meta(n), cm)))
        ex.check("update changes no other id", IMP(z3.And(k != n, a.live(k)), z3.And(v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
        M.check("update")
        reached(ex)
    ex.explore(thunk, "update")


@unit("AnnoyIndex.search", "I07")
def search_unit_(ex):
    def thunk():
        o, M = ann_setup(ex)
        x = arg_vec(ex, "query")
        q = content_vec(ex, x)
        k = ex.fresh("k", I)
        ex.fact(k >= 1)
        M.mark()
        a = M.v0
        dn, d = M.dimension()

        def pool(L):
            v, j, m = M.V(), z3.Int("j!sl"), z3.Int("m!sl")
            try:
                y = ex.unopt(L.it.at(m))
            except Exception:
                y = None
            if isinstance(y, tuple) and y:
                y = y[0]
            for nm, st, p in ex.typed_lists(L):
                ty = st[3]
                if not isinstance(ty, TRec) or not {"id", "metadata"} <= set(ty.fields) or ty.fields["id"] != TInt:
                    continue
                gid = lambda u: ex.acc(ty, list(ty.fields).index("id"), st[2](u))
                gm = rec_meta(ex, ty, st[2], "metadata")
                rng = z3.And(0 <= j, j < st[1])
                yield nm + ":live", forall(j, IMP(rng, v.live(gid(j))), st[2](j))
                yield nm + ":meta", forall(j, IMP(rng, gm(j) == v.meta(gid(j))), st[2](j))
                yield nm + ":distinct", forall([j, m], IMP(z3.And(rng, j < m, m < st[1]), gid(j) != gid(m)), (st[2](j), st[2](m)))
                if is_sort(y, I):
                    yield nm + ":fut", forall([j, m], IMP(z3.And(rng, L.i <= m, m < zi(L.it.len)), gid(j) != y), (st[2](j), y))
        ex.loop_pools = [M.pool, pool]
        r = call(ex, o, "search", x, k)
        if r[0] == "exc":
            ex.check("only bad queries are refused", z3.Not(z3.And(M.init(), M.built(), z3.Or(dn, z3.And(adim(q, 0) == d, d >= 1)))))
            same(ex, M, "a refused search")
            reached(ex)
            return
        same(ex, M, "search")
        M.check("search")
        res = r[1]
        if not isinstance(res, VList):
            raise Unsupported("search result")
        st = ex.lst(res)
        n = zi(ex.list_len(res))
        ex.check("at most k results", n <= k)
        if st[0] == "c":
            if st[1]:
                raise Unsupported("search result")
            reached(ex)
            return
        ty = st[3]
        i, j = ex.fresh("i", I), ex.fresh("j", I)
        gid = lambda u: ex.acc(ty, list(ty.fields).index("id"), st[2](u))
        gm = rec_meta(ex, ty, st[2], "metadata")
        rng = z3.And(0 <= i, i < n)
        ex.check("results are live", IMP(rng, a.live(gid(i))))
        ex.check("own metadata of each result", IMP(rng, gm(i) == a.meta(gid(i))))
        ex.check("results are distinct", IMP(z3.And(rng, i < j, j < n), gid(i) != gid(j)))
        reached(ex)
    ex.explore(thunk, "search")


@unit("AnnoyIndex.lifecycle", "I07")
def lifecycle_unit_(ex):
    def thunk():
        c = ex.choose(4)
        if c == 0:
            o, M = ann_setup(ex, fresh=True)
            what, r = "initialize", call(ex, o, "initialize", None)
        elif c == 1:
            o, M = ann_setup(ex)
            what, r = "clear", call(ex, o, "clear")
        elif c == 2:
            o, M = ann_setup(ex)
            what, r = "close", call(ex, o, "close")
        else:
            o, M = ann_setup(ex)
            what, r = "build", call(ex, o, "build")
            if r[0] == "exc":
                same(ex, M, "a failed build")
                reached(ex)
                return
            a, b, j = M.v0, M.V(), ex.fresh("j", I)
            ex.check("build changes no data", z3.And(a.live(j) == b.live(j), IMP(a.live(j), z3.And(a.vec(j) == b.vec(j), a.meta(j) == b.meta(j)))))
            ex.check("the index is built", M.built())
            M.check(what)
            reached(ex)
            return
        if r[0] == "exc":
            unexpected(ex, r)
        k = ex.fresh("k", I)
        ex.check("no vector is left after %s" % what, z3.Not(M.V().live(k)))
        if what != "initialize":
            ex.check("not built after %s" % what, NOT(M.built()))
        M.check(what)
        reached(ex)
    ex.explore(thunk, "lifecycle")
