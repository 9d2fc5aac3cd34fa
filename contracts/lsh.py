"""LSHIndex (I06, I08)."""
from .index_common import *

LSH = "valori.indices.lsh.LSHIndex"
LCONF = {"metric": TStr, "num_hash_tables": TInt, "hash_size": TInt, "num_projections": TInt, "random_seed": TInt, "threshold": TReal}
TLI = TList(TInt)
TBUCKETS = TDict(TStr, TLI, default=True)
TVECS, TMETAS = TList(TOpt(TArr)), TList(TOpt(TMeta))
HASH = lambda t, v: F("lsh_hash", I, Arr, Str)(zi(t), v)
SIM = lambda a, b: F("lsh_sim", Arr, Arr, R)(a, b)


class LshView:
    """Contents of the index at one moment."""

    def __init__(self, ex, o):
        self.ex = ex
        v, m, t = o.d["vectors"], o.d["metadata"], o.d["hash_tables"]
        for x in (v, m, t):
            if not isinstance(x, VList):
                raise Unsupported("representation of LSHIndex")
        self.vs, self.ms, self.ts = ex.sym_list(ex.lst(v), TOpt(TArr)) if ex.lst(v) != ("c", []) else ("s", z3.IntVal(0), self.none(TOpt(TArr)), TOpt(TArr), None), \
            ex.sym_list(ex.lst(m), TOpt(TMeta)) if ex.lst(m) != ("c", []) else ("s", z3.IntVal(0), self.none(TOpt(TMeta)), TOpt(TMeta), None), \
            ex.lst(t) if ex.lst(t)[0] == "s" else ("s", z3.IntVal(0), lambda j: F("notable", I, TBUCKETS.sort())(j), TBUCKETS, None) if not ex.lst(t)[1] else ex.sym_list(ex.lst(t))
        self.H, self.Hm = ex.st.d["Hvec"], ex.st.d["Hmeta"]
        ex.mem_axioms(TLI)
        self.n, self.T = zi(self.vs[1]), zi(self.ts[1])
        if self.ts[3] != TBUCKETS:
            raise Unsupported("representation of the hash tables")
        if self.vs[3] not in (TOpt(TArr), TArr) or self.ms[3] not in (TOpt(TMeta), TMeta):
            raise Unsupported("representation of LSHIndex")

    @staticmethod
    def none(t):
        return lambda j: F("nothing_" + t.name, I, t.sort())(zi(j))

    def live(self, j):
        t = self.vs[3]
        return z3.And(0 <= j, j < self.n, z3.Not(t.is_none(self.vs[2](j))) if isinstance(t, TOpt) else True)

    def vref(self, j):
        t = self.vs[3]
        return t.val(self.vs[2](j)) if isinstance(t, TOpt) else self.vs[2](j)

    def vec(self, j):
        return z3.Select(self.H, self.vref(j))

    def mref(self, j):
        t = self.ms[3]
        return t.val(self.ms[2](j)) if isinstance(t, TOpt) else self.ms[2](j)

    def hasmeta(self, j):
        t = self.ms[3]
        return z3.Not(t.is_none(self.ms[2](j))) if isinstance(t, TOpt) else z3.BoolVal(True)

    def meta(self, j):
        return z3.Select(self.Hm, self.mref(j))

    def table(self, t):
        return self.ts[2](zi(t))

    def dom(self, t, h):
        return z3.Select(self.ex.acc(TBUCKETS, 0, self.table(t)), h)

    def bucket(self, t, h):
        return z3.Select(self.ex.acc(TBUCKETS, 1, self.table(t)), h)

    def mem(self, t, h, k):
        return self.ex.MEM(TLI)(self.bucket(t, h), k)

    def listed(self, t, h, k):
        return z3.And(self.dom(t, h), self.mem(t, h, k))

    def distinct(self, t, h):
        return self.ex.DISTINCT(TLI)(self.bucket(t, h))


class LshModel:
    def __init__(self, ex, o, c):
        self.ex, self.o = ex, o
        self.tr = None

    def init(self):
        return zb(self.ex.truth(self.o.d["_initialized"]))

    def V(self):
        return LshView(self.ex, self.o)

    def T(self):
        return zi(self.ex.unopt(self.o.d["num_hash_tables"]))

    def dim(self):
        d = self.o.d["dimension"]
        if d is None:
            return z3.BoolVal(True), z3.IntVal(0)
        if isinstance(d, VOpt):
            return zb(d.isnone), zi(d.value)
        return z3.BoolVal(False), zi(d)

    def havoc(self):
        ex, o = self.ex, self.o
        o.d["vectors"] = ex.havoc_value(TVECS, "vectors")
        o.d["metadata"] = ex.havoc_value(TMETAS, "metadata")
        o.d["hash_tables"] = ex.havoc_value(TList(TBUCKETS), "tables")
        o.d["_next_id"] = ex.fresh("next_id", I)
        o.d["dimension"] = VOpt(ex.fresh("dim_none", B), ex.fresh("dim", I))
        o.d["projections"] = VOpt(ex.fresh("proj_none", B), ex.fresh_mat(2, "f", "projections"))
        o.d["offsets"] = VOpt(ex.fresh("off_none", B), ex.fresh_mat(1, "f", "offsets"))
        o.d["_initialized"] = ex.fresh("initialized", B)

    def base_inv(self):
        ex, v = self.ex, self.V()
        j = z3.Int("j!li")
        al = ex.st.d["alloc"]
        dn, d = self.dim()
        nx = zi(self.o.d["_next_id"])
        yield "as many metadata entries as vectors", zi(v.ms[1]) == v.n
        yield "the next id is the number of vectors", nx == v.n
        yield "every live vector has metadata", forall(j, IMP(v.live(j), v.hasmeta(j)), v.vs[2](j), v.ms[2](j))
        yield "vectors are private", forall(j, IMP(v.live(j), z3.And(v.vref(j) >= 0, v.vref(j) < al, z3.Not(client(v.vref(j))))), v.vs[2](j))
        yield "metadata are stored", forall(j, IMP(v.live(j), z3.And(v.mref(j) >= 0, v.mref(j) < al)), v.ms[2](j))
        yield "all vectors have the dimension of the index", forall(j, IMP(v.live(j), z3.And(z3.Not(dn), adim(v.vec(j), 0) == d)), v.vs[2](j))
        yield "an index with a dimension has projections", IMP(z3.Not(dn), z3.And(*[NOT(self.isnone(f)) for f in ("projections", "offsets")]))
        yield "as many tables as configured", IMP(self.init(), v.T == self.T())

    def isnone(self, f):
        x = self.o.d.get(f)
        return x is None if not isinstance(x, VOpt) else zb(x.isnone)

    def table_inv(self, but=None):
        """but: (id, listed(t)): the given id is exempt, it is listed in table t iff listed(t)."""
        ex, v = self.ex, self.V()
        j, t, h = z3.Int("j!lt"), z3.Int("t!lt"), z3.Const("h!lt", Str)
        ok = v.live(j) if but is None else z3.And(v.live(j), j != but[0])
        rt = z3.And(0 <= t, t < v.T)
        ini = self.init()
        yield "no table lists anything but live ids under their hash", IMP(ini, forall([t, h, j], IMP(z3.And(rt, v.listed(t, h, j)) if but is None else z3.And(rt, j != but[0], v.listed(t, h, j)), z3.And(v.live(j), h == HASH(t, v.vec(j)))), v.mem(t, h, j)))
        yield "every table lists every live id under its hash", IMP(ini, forall([t, j], IMP(z3.And(rt, ok), v.listed(t, HASH(t, v.vec(j)), j)), (v.table(t), v.vs[2](j)), HASH(t, v.vec(j))))
        yield "no id is twice in a bucket", IMP(ini, forall([t, h], IMP(z3.And(rt, v.dom(t, h)), v.distinct(t, h)), v.bucket(t, h)))

    def inv(self):
        yield from self.base_inv()
        yield from self.table_inv()

    def assume(self):
        for nm, f in self.inv():
            self.ex.fact(f)

    def check(self, what):
        for nm, f in self.inv():
            self.ex.check("invariant after %s: %s" % (what, nm), f)

    def pool(self, L):
        for nm, f in self.inv():
            yield "inv:" + nm, f

    def heap_pool(self, L):
        ex = self.ex
        r = z3.Int("r!lh")
        H, Hm = ex.st.d["Hvec"], ex.st.d["Hmeta"]
        yield "heap:vec", forall(r, IMP(r < self.al0, z3.Select(H, r) == z3.Select(self.H0, r)), z3.Select(H, r))
        yield "heap:meta", forall(r, IMP(r < self.al1, z3.Select(Hm, r) == z3.Select(self.Hm1(), r)), z3.Select(Hm, r))

    def mark(self):
        ex = self.ex
        self.al0, self.H0, self.Hm0 = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
        self.al1 = self.al0
        self.v0 = self.V()

    def Hm1(self):
        return self.Hm0


def ints_in_frames(ex, L):
    xs = {}
    for f in ex.frames[-3:]:
        for nm, v in f.env.d.items():
            if is_sort(v, I) and not (f is ex.frame and (f.env.sid, nm) in L.info.mods):
                xs.setdefault(v.get_id(), (nm, v))
    return list(xs.values())


def table_pool(M):
    """One id moves through the tables: listed in none, in the first i, or in all but the first i."""
    ex = M.ex

    def pool(L):
        try:
            v = M.V()
        except Unsupported:
            return
        t, h, j = z3.Int("t!tp"), z3.Const("h!tp", Str), z3.Int("j!tp")
        pt = L.pre.get((M.o.sid, "hash_tables"))
        yield "tb:count", v.T == M.T()
        for nm, x in ints_in_frames(ex, L):
            if nm in ("k",):
                continue
            for n2, f in M.table_inv(but=(x,)):
                yield "tb:%s~%s" % (n2, nm), f
            if L.i is None:
                continue
            i = L.i
            rt = z3.And(0 <= t, t < v.T)
            vx = v.vec(x)
            cut = M.o.d.get("vectors")
            yield "tb:in<i~" + nm, forall([t], IMP(z3.And(rt, t < i), v.listed(t, HASH(t, vx), x)), v.table(t))
            yield "tb:at<i~" + nm, forall([t, h], IMP(z3.And(rt, t < i, v.listed(t, h, x)), h == HASH(t, vx)), v.mem(t, h, x))
            yield "tb:not<i~" + nm, forall([t, h], IMP(z3.And(rt, t < i), z3.Not(v.listed(t, h, x))), v.mem(t, h, x))
            yield "tb:not>=i~" + nm, forall([t, h], IMP(z3.And(rt, t >= i), z3.Not(v.listed(t, h, x))), v.mem(t, h, x))
            yield "tb:at>=i~" + nm, forall([t, h], IMP(z3.And(rt, t >= i, v.listed(t, h, x)), h == HASH(t, vx)), v.mem(t, h, x))
    return pool


def hash_contract(M):
    def h(ex, obj, args, kw, node=None):
        a = ex.unopt(args[0] if args else kw["vector"])
        ex.check("before hashing: the index has projections", z3.And(*[zb(NOT(M.isnone(f))) for f in ("projections", "offsets")]))
        dn, d = M.dim()
        c = content_vec(ex, a)
        ex.need(adim(c, 0) == d, "ValueError", node)
        return VList(("s", M.T(), lambda t: HASH(t, c), TStr, None))
    return h


def gen_contract(M):
    def h(ex, obj, args, kw, node=None):
        dn, d = M.dim()
        ex.check("before generating projections: the dimension is known", z3.Not(dn))
        v = M.V()
        j = z3.Int("j!gp")
        ex.check("projections are never replaced while vectors are stored", forall(j, z3.Not(v.live(j)), v.vs[2](j)))
        ex.set(M.o, "projections", ex.fresh_mat(2, "f", "projections"))
        ex.set(M.o, "offsets", ex.fresh_mat(1, "f", "offsets"))
        return None
    return h


def sim_contract(M):
    def h(ex, obj, args, kw, node=None):
        a, b = content_vec(ex, ex.unopt(args[0])), content_vec(ex, ex.unopt(args[1]))
        ex.need(adim(a, 0) == adim(b, 0), "ValueError", node)
        return SIM(a, b)
    return h


def lsh_setup(ex, fresh=False, assume=True, helpers=True):
    setup(ex)
    ex.defaultdict_type = TBUCKETS
    try:
        o, c = build(ex, LSH, VConf(types=dict(LCONF)))
    except PyRaise:         # an unusable configuration is refused
        raise PathEnd()
    M = LshModel(ex, o, c)
    if not fresh:
        M.havoc()
        havoc_unknown(ex, o, {"vectors", "metadata", "hash_tables", "_next_id", "dimension", "projections", "offsets", "rng", "_initialized", "config",
                              "metric", "num_hash_tables", "hash_size", "num_projections", "random_seed", "threshold", "storage_backend"})
        if assume:
            M.assume()
    if helpers:
        for n, f in (("_hash_vector", hash_contract), ("_generate_projections", gen_contract), ("_compute_distance", sim_contract)):
            if o.cls.find(n):
                ex.contracts[LSH + "." + n] = f(M)
    M.mark()
    return o, M


def same_view(ex, M, what, props=None):
    """A rejected call leaves the index as it was."""
    a, b = M.v0, M.V()
    j, t, h = ex.fresh("j", I), ex.fresh("t", I), ex.fresh("h", Str)
    rt = z3.And(0 <= t, t < a.T, M.init())
    ex.check("%s leaves the index as it was" % what, z3.And(a.live(j) == b.live(j), IMP(a.live(j), z3.And(a.vec(j) == b.vec(j), a.meta(j) == b.meta(j))),
                                                            IMP(rt, a.listed(t, h, j) == b.listed(t, h, j))), "", props)


def arg_metalist(ex, name="metadata"):
    l = ex.havoc_value(TList(TMeta), name)
    at = ex.lst(l)[2]
    j = z3.Int("j!ml")
    ex.fact(forall(j, z3.And(client(at(j)), at(j) >= 0, at(j) < ex.st.d["alloc"]), at(j)))
    return l


def add_pool(M, V, mc, n0):
    """State after the first i rows of a batch have been added."""
    ex = M.ex
    rows = lambda q: arow(ex.arr_box(V), q)

    def pool(L):
        if L.i is None:
            return
        try:
            v = M.V()
        except Unsupported:
            return
        i, j = L.i, z3.Int("j!ap")
        a = M.v0
        yield "add:n", v.n == n0 + i
        yield "add:n1", v.n == n0 + i + 1
        yield "add:old", forall(j, IMP(z3.And(0 <= j, j < n0), z3.And(v.live(j) == a.live(j), IMP(a.live(j), z3.And(v.vec(j) == a.vec(j), v.meta(j) == a.meta(j))))), v.vs[2](j))
        yield "add:olds", forall(j, IMP(z3.And(0 <= j, j < v.n, j < n0), z3.And(v.live(j) == a.live(j), IMP(a.live(j), z3.And(v.vec(j) == a.vec(j), v.meta(j) == a.meta(j))))), v.vs[2](j))
        yield "add:new", forall(j, IMP(z3.And(n0 <= j, j < v.n), z3.And(v.live(j), v.vec(j) == rows(j - n0), v.meta(j) == mc(j - n0))), v.vs[2](j))
        yield "add:grown", v.n >= n0
        yield "add:dim", IMP(i > 0, zi(V.d["s"][0][1]) >= 1)
        for nm, st, p in ex.typed_lists(L):
            if st[3] == TInt and p is not None and isinstance(ex.list_len(p), int) and ex.list_len(p) == 0:
                yield nm + ":ids", forall(j, IMP(z3.And(0 <= j, j < st[1]), st[2](j) == n0 + j), st[2](j))
    return pool


def add_unit(name):
    strs = name == "insert"

    @unit("LSHIndex." + name, "I06 I08")
    def run(ex):
        def thunk():
            o, M = lsh_setup(ex)
            V = arg_mat(ex)
            n, d = V.d["s"][0]
            md = arg_metalist(ex)
            H = ex.st.d["Hmeta"]
            mlen, mat = ex.lst(md)[1], ex.lst(md)[2]
            none = ex.fresh("metadata_none", B) if strs else False
            mc = lambda q: ITE(none, z3.Const("EMPTYMETA", MetaV), z3.Select(H, mat(q)))
            M.mark()
            n0 = M.v0.n
            dn, dim = M.dim()
            ok = z3.And(M.init(), z3.Or(zb(none), zi(mlen) == zi(n)), z3.Or(dn, dim == zi(d)), z3.Or(zi(d) >= 1, zi(n) == 0))
            ex.loop_pools = [M.pool, M.heap_pool, table_pool(M), add_pool(M, V, mc, n0)]
            r = call(ex, o, name, V, VOpt(none, md) if strs else md)
            if r[0] == "exc":
                ex.check("only bad batches are rejected", z3.Not(ok))
                same_view(ex, M, "a rejected %s" % name)
                M.check("a rejected " + name)
                reached(ex)
                return
            ex.check("bad batches are rejected", ok)
            res = r[1]
            if not isinstance(res, VList):
                raise Unsupported("result of add")
            ex.check("one id per vector", zi(ex.list_len(res)) == zi(n), "", ("I08", "I06"))
            v, a = M.V(), M.v0
            j, k = ex.fresh("j", I), ex.fresh("k", I)
            rng = z3.And(0 <= j, j < zi(n))
            if ex.lst(res)[0] == "s":
                at = ex.lst(res)[2](j)
                ex.check("the j-th id is the next unused one", IMP(rng, at == (ex.to_str(n0 + j) if strs else n0 + j)), "", ("I08", "I06"))
            ex.check("the j-th id denotes the j-th vector and metadata", IMP(rng, z3.And(v.live(n0 + j), v.vec(n0 + j) == arow(ex.arr_box(V), j), v.meta(n0 + j) == mc(j))), "", ("I08",))
            ex.check("the new ids were not live", IMP(rng, z3.Not(a.live(n0 + j))), "", ("I08",))
            ex.check("earlier vectors stay", IMP(a.live(k), z3.And(v.live(k), v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))), "", ("I08", "I06"))
            ex.check("nothing else appears", v.n == n0 + zi(n))
            M.check(name)
            reached(ex)
        ex.explore(thunk, name)
    return run


for _n in ("add", "insert"):
    add_unit(_n)


# ------------------------------------------------------------------ removal and update
class RemGhost:
    """REM(i, k): k is among the first i ids of the list."""

    def __init__(self, ex, n, at, when=lambda i: z3.BoolVal(True)):
        self.ex, self.n, self.at, self.when = ex, n, at, when
        ex.nf += 1
        self.f = F("REM!%d" % ex.nf, I, I, B)

    def __call__(self, i, k):
        return self.f(zi(i), k)

    def define(self, i):
        ex = self.ex
        k = z3.Int("k!rm")
        i = z3.simplify(zi(i))
        ex.raw_fact(forall(k, z3.Not(self(0, k)), self(0, k)))
        ex.raw_fact(IMP(i >= 0, forall(k, self(i + 1, k) == z3.Or(self(i, k), z3.And(self.when(i), self.at(i) == k)), self(i + 1, k), self(i, k))))


def rem_pool(M, g):
    ex = M.ex

    def pool(L):
        if L.i is None:
            return
        try:
            v = M.V()
        except Unsupported:
            return
        a, j = M.v0, z3.Int("j!rp")
        yield "rm:n", v.n == a.n
        yield "rm:ids", forall(j, IMP(v.live(j), z3.And(a.live(j), v.vec(j) == a.vec(j), v.meta(j) == a.meta(j))), v.vs[2](j))
        g.define(L.i)
        yield "rm:live", forall(j, v.live(j) == z3.And(a.live(j), z3.Not(g(L.i, j))), v.vs[2](j), g(L.i, j))
    return pool


@unit("LSHIndex.remove", "I06")
def remove_unit(ex):
    def thunk():
        o, M = lsh_setup(ex)
        ids = ex.havoc_value(TList(TInt), "ids")
        st = ex.lst(ids)
        g = RemGhost(ex, st[1], st[2])
        g.define(z3.IntVal(0))
        M.mark()
        ex.loop_pools = [M.pool, M.heap_pool, table_pool(M), rem_pool(M, g)]
        r = call(ex, o, "remove", ids)
        if r[0] == "exc":
            if not ex.branch(M.init()):
                ex.check("an uninitialized index refuses remove", exc_is(ex, r[1], IERR))
                same_view(ex, M, "a rejected remove")
                reached(ex)
                return
            unexpected(ex, r)
        a, v, k = M.v0, M.V(), ex.fresh("k", I)
        ex.check("exactly the given ids are gone", v.live(k) == z3.And(a.live(k), z3.Not(g(st[1], k))))
        ex.check("other ids keep vector and metadata", IMP(v.live(k), z3.And(v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
        M.check("remove")
        reached(ex)
    ex.explore(thunk, "remove")


@unit("LSHIndex.update", "I06")
def update_unit_(ex):
    def thunk():
        o, M = lsh_setup(ex)
        s = ex.fresh("id", Str)
        x = arg_vec(ex)
        md = arg_meta(ex)
        cv, cm = content_vec(ex, x), content_meta(ex, md)
        M.mark()
        a = M.v0
        dn, d = M.dim()
        n = F("str2int_", Str, I)(s)
        ok = z3.And(F("is_int_str", Str, B)(s), a.live(n), adim(cv, 0) == d, d >= 1)
        ex.loop_pools = [M.pool, M.heap_pool, table_pool(M), lambda L: upd(L)]

        def upd(L):
            v, j = M.V(), z3.Int("j!up")
            yield "up:n", v.n == a.n
        r = call(ex, o, "update", s, x, md)
        if r[0] == "exc":
            ex.check("only an uninitialized index raises", z3.Not(M.init()))
            same_view(ex, M, "a rejected update")
            reached(ex)
            return
        ex.check("an uninitialized index refuses update", M.init())
        res = zb(ex.truth(r[1]))
        ex.check("update reports whether it was done", res == ok)
        v, k = M.V(), ex.fresh("k", I)
        ex.check("no id comes or goes", v.live(k) == a.live(k))
        ex.check("a rejected update changes nothing", IMP(z3.And(z3.Not(res), a.live(k)), z3.And(v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
        ex.check("update changes the given id", IMP(res, z3.And(v.vec(n) == cv, v.meta(n) == z3.If(cm == NOMETA, a.meta(n), cm))))
        ex.check("update changes no other id", IMP(z3.And(k != n, a.live(k)), z3.And(v.vec(k) == a.vec(k), v.meta(k) == a.meta(k))))
        M.check("update")
        reached(ex)
    ex.explore(thunk, "update")


@unit("LSHIndex.delete", "I06")
def delete_unit_(ex):
    def thunk():
        o, M = lsh_setup(ex)
        ids = ex.havoc_value(TList(TStr), "ids")
        st = ex.lst(ids)
        M.mark()
        a = M.v0
        k, j = ex.fresh("k", I), z3.Int("j!dl")
        isn, num = F("is_int_str", Str, B), F("str2int_", Str, I)
        seen = {}

        def rm(ex2, obj, args, kw, node=None):
            l = args[0]
            s2 = ex2.sym_list(ex2.lst(l), TInt)
            seen["b"] = ex2.boxed(s2)
            if not ex2.branch(M.init()):
                raise PyRaise(VExc(ex2.repo.cls(IERR), ("not initialized",)))
            return None
        ex.contracts[LSH + ".remove"] = rm
        g = RemGhost(ex, st[1], lambda i: num(st[2](i)), lambda i: isn(st[2](i)))
        g.define(z3.IntVal(0))
        ex.mem_axioms(TLI)

        def pool(L):
            if L.i is None:
                return
            g.define(L.i)
            for nm, s2, p in ex.typed_lists(L):
                if s2[3] == TInt:
                    b = ex.boxed(s2)
                    yield nm + ":given", forall(j, ex.MEM(TLI)(b, j) == g(L.i, j), ex.MEM(TLI)(b, j), g(L.i, j))
        ex.loop_pools = [pool]
        r = call(ex, o, "delete", ids)
        if r[0] == "exc":
            unexpected(ex, r)
        if "b" in seen:
            ex.check("exactly the given ids are removed", ex.MEM(TLI)(seen["b"], k) == g(st[1], k))
        else:
            ex.check("delete removes through remove", False)
        ex.check("delete reports success on an initialized index", IMP(M.init(), zb(ex.truth(r[1]))))
        reached(ex)
    ex.explore(thunk, "delete")


@unit("LSHIndex.lifecycle", "I06")
def lifecycle_unit_(ex):
    def thunk():
        c = ex.choose(3)
        if c == 0:
            o, M = lsh_setup(ex, fresh=True)
            if ex.choose(2):
                M.havoc()
                M.o.d["_initialized"] = False
                M.assume()
                v, j = M.V(), z3.Int("j!lc")
                ex.fact(forall(j, z3.Not(v.live(j)), v.vs[2](j)))       # closed or never used
                ex.fact(v.n == 0)
            r = call(ex, o, "initialize", None)
            what = "initialize"
        elif c == 1:
            o, M = lsh_setup(ex)
            r = call(ex, o, "clear")
            what = "clear"
        else:
            o, M = lsh_setup(ex)
            r = call(ex, o, "close")
            what = "close"
        if r[0] == "exc":
            unexpected(ex, r)
        k = ex.fresh("k", I)
        ex.check("no vector is left after %s" % what, z3.Not(M.V().live(k)))
        if what == "initialize":
            ex.check("the index is initialized", M.init())
        M.check(what)
        reached(ex)
    ex.explore(thunk, "lifecycle")


# ------------------------------------------------------------------ search
def search_loops(M, q):
    ex = M.ex

    def pool(L):
        try:
            v = M.V()
        except Unsupported:
            return
        if L.i is None or L.it is None:
            return
        i, j, t, h, m = L.i, z3.Int("j!sl"), z3.Int("t!sl"), z3.Const("h!sl", Str), z3.Int("m!sl")
        rt = z3.And(0 <= t, t < v.T)
        # candidate sets
        for nm, s in list(ex.frame.env.d.items()):
            if isinstance(s, VSet):
                st = ex.sset(s)
                if st[0] == "c" and st[1]:
                    continue
                try:
                    st = ex.sym_set(s, TInt)
                except Unsupported:
                    continue
                if st[2] != TInt:
                    continue
                c = lambda k: z3.Select(st[1], k)
                yield "cs:live " + nm, forall(j, IMP(c(j), v.live(j)), c(j))
                yield "cs:all " + nm, forall([t, j], IMP(z3.And(rt, t < i, v.listed(t, HASH(t, q), j)), c(j)), v.mem(t, HASH(t, q), j))
        # results
        try:
            x = ex.unopt(L.it.at(m))
        except Exception:
            x = None
        for nm, st, p in ex.typed_lists(L):
            ty = st[3]
            if not isinstance(ty, TRec) or not {"id", "distance", "metadata"} <= set(ty.fields) or ty.fields["id"] != TInt:
                continue
            gid = lambda k: ex.acc(ty, list(ty.fields).index("id"), st[2](k))
            gd = rec_get(ex, ty, st[2], "distance")
            gm = rec_meta(ex, ty, st[2], "metadata")
            rng = z3.And(0 <= j, j < st[1])
            yield nm + ":live", forall(j, IMP(rng, v.live(gid(j))), st[2](j))
            yield nm + ":sim", forall(j, IMP(rng, gd(j) == SIM(q, v.vec(gid(j)))), st[2](j))
            yield nm + ":thr", forall(j, IMP(rng, gd(j) >= M.thr), st[2](j))
            yield nm + ":meta", forall(j, IMP(rng, gm(j) == v.meta(gid(j))), st[2](j))
            yield nm + ":distinct", forall([j, m], IMP(z3.And(rng, j < m, m < st[1]), gid(j) != gid(m)), (st[2](j), st[2](m)))
            if is_sort(x, I):
                yield nm + ":fut", forall([j, m], IMP(z3.And(rng, i <= m, m < zi(L.it.len)), gid(j) != x), (st[2](j), x))
                yield nm + ":all", forall(m, IMP(z3.And(0 <= m, m < i, v.live(x), SIM(q, v.vec(x)) >= M.thr), exists(j, z3.And(rng, gid(j) == x), st[2](j))), x)
    return pool


@unit("LSHIndex.search", "I06")
def search_unit_(ex):
    def thunk():
        o, M = lsh_setup(ex)
        x = arg_vec(ex, "query")
        q = content_vec(ex, x)
        k = ex.fresh("k", I)
        ex.fact(k >= 1)
        tn, tv = ex.fresh("thr_none", B), ex.fresh("thr", R)
        M.mark()
        a = M.v0
        dn, d = M.dim()
        M.thr = z3.If(tn, zr(ex.unopt(o.d["threshold"])), tv)
        ex.loop_pools = [M.pool, M.heap_pool, search_loops(M, q)]
        r = call(ex, o, "search", x, k, VOpt(tn, tv))
        if r[0] == "exc":
            ex.check("only bad queries are refused", z3.Not(z3.And(M.init(), z3.Or(dn, z3.And(adim(q, 0) == d, d >= 1)))))
            same_view(ex, M, "a refused search")
            reached(ex)
            return
        same_view(ex, M, "search")
        M.check("search")
        res = r[1]
        if not isinstance(res, VList):
            raise Unsupported("search result")
        st = ex.lst(res)
        n = zi(ex.list_len(res))
        ex.check("at most k results", n <= k)
        i, j, t, left = ex.fresh("i", I), ex.fresh("j", I), ex.fresh("t", I), ex.fresh("left_out", I)
        jj = z3.Int("jj!lo")
        share = z3.And(0 <= t, t < a.T, a.live(left), HASH(t, a.vec(left)) == HASH(t, q), SIM(q, a.vec(left)) >= M.thr)
        if st[0] == "c":
            if st[1]:
                raise Unsupported("search result")
            ex.check("nothing closer in a shared bucket is left out", z3.Not(z3.And(z3.Not(dn), share)))
            reached(ex)
            return
        ty = st[3]
        gid = lambda u: ex.acc(ty, list(ty.fields).index("id"), st[2](u))
        gd, gm = rec_get(ex, ty, st[2], "distance"), rec_meta(ex, ty, st[2], "metadata")
        rng = z3.And(0 <= i, i < n)
        ex.check("results are live", IMP(rng, a.live(gid(i))))
        ex.check("true similarity of each result", IMP(rng, gd(i) == SIM(q, a.vec(gid(i)))))
        ex.check("results meet the threshold", IMP(rng, gd(i) >= M.thr))
        ex.check("own metadata of each result", IMP(rng, gm(i) == a.meta(gid(i))))
        ex.check("results are distinct", IMP(z3.And(rng, i < j, j < n), gid(i) != gid(j)))
        ex.check("results are ordered", IMP(z3.And(rng, i < j, j < n), gd(i) >= gd(j)))
        out = z3.And(share, forall(jj, IMP(z3.And(0 <= jj, jj < n), gid(jj) != left), st[2](jj)))
        ex.check("k results when one sharing a bucket is left out", IMP(out, n == k))
        ex.check("nothing more similar in a shared bucket is left out", IMP(z3.And(out, rng), gd(i) >= SIM(q, a.vec(left))))
        reached(ex)
    ex.explore(thunk, "search")


# ------------------------------------------------------------------ helpers
@unit("LSHIndex._compute_distance", "I06")
def lsh_sim_unit(ex):
    if not ex.repo.cls(LSH).find("_compute_distance"):
        ex.manual("no separate similarity function", True, "none", "")
        ex.reached = 1
        return

    def thunk():
        o, M = lsh_setup(ex, helpers=False)
        ex.dist_axioms()
        v, w = arg_vec(ex, "v"), arg_vec(ex, "w")
        a, b = content_vec(ex, v), content_vec(ex, w)
        ex.fact(adim(a, 0) == adim(b, 0))
        mt = zs(ex, o.d["metric"])
        ex.fact(z3.Or(*[mt == lit(x) for x in ("cosine", "euclidean", "manhattan")]))
        r = call(ex, o, "_compute_distance", v, w)
        if r[0] == "exc":
            unexpected(ex, r)
        res = zr(r[1])
        ex.check("cosine similarity (0 when a vector is zero)", IMP(mt == lit("cosine"), res == F("cossim", Arr, Arr, R)(a, b)))
        ex.check("euclidean similarity is 1/(1+distance)", IMP(mt == lit("euclidean"), res == 1 / (1 + F("eucdist", Arr, Arr, R)(a, b))))
        ex.check("the vectors are not modified", z3.And(ex.vec_at(v.ref) == a, ex.vec_at(w.ref) == b))
        reached(ex)
    ex.explore(thunk, "similarity")


@unit("LSHIndex._hash_vector", "I06")
def lsh_hash_unit(ex):
    if not ex.repo.cls(LSH).find("_hash_vector"):
        ex.manual("no separate hash function", True, "none", "")
        ex.reached = 1
        return

    def thunk():
        o, M = lsh_setup(ex, helpers=False)
        v = arg_vec(ex, "v")
        dn, d = M.dim()
        ex.fact(z3.Not(dn))
        ex.fact(adim(content_vec(ex, v), 0) == d)
        pr, of = o.d["projections"].value, o.d["offsets"].value
        ex.fact(z3.And(zi(pr.d["s"][0][0]) == zi(ex.unopt(o.d["num_projections"])), zi(pr.d["s"][0][1]) == d, zi(of.d["s"][0][0]) == zi(ex.unopt(o.d["num_projections"]))))
        ex.loop_pools = [M.heap_pool]
        r = call(ex, o, "_hash_vector", v)
        if r[0] == "exc":
            unexpected(ex, r)
        ex.check("one hash per table", zi(ex.list_len(r[1])) == M.T())
        same_view(ex, M, "hashing")
        M.check("hashing")
        reached(ex)
    ex.explore(thunk, "hash")
