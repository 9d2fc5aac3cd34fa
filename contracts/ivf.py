"""IVFIndex (I02, I05, I08)."""
from .index_common import *
from .hnsw import dist_contract, compute_distance_unit, Seen

IVF = "valori.indices.ivf.IVFIndex"
TL = TList(TStr)
ICONF = {"metric": TStr, "n_clusters": TInt, "n_probes": TInt}


class Clusters:
    """View of a cluster table: number -> list of ids."""

    def __init__(self, ex, vd):
        if not isinstance(vd, VDict):
            raise Unsupported("representation of IVFIndex.clusters")
        self.ex, self.sd = ex, ex.sym_dict(vd, TInt, TL)
        ex.mem_axioms(TL)

    def dom(self, c):
        return z3.Select(self.sd[1], zi(c))

    def nb(self, c):
        return z3.Select(self.sd[2], zi(c))

    def mem(self, c, k):
        return self.ex.MEM(TL)(self.nb(c), k)

    def listed(self, c, k):
        return z3.And(self.dom(c), self.mem(c, k))

    def distinct(self, c):
        return self.ex.DISTINCT(TL)(self.nb(c))


class IvfModel(IndexModel):
    fields = ("vector_ids", "vectors_cache", "_vector_count", "clusters", "centroids", "_trained", "n_clusters", "n_probes")
    exempt = None           # an id on its way out of or into the clusters

    def __init__(self, ex, obj, sb):
        IndexModel.__init__(self, ex, obj, sb)
        for f in ("n_clusters", "n_probes"):
            x = obj.d.get(f)
            if is_sort(x, I):
                ex.fact(x >= 1)

    def havoc(self):
        ex, o = self.ex, self.o
        o.d["vector_ids"] = ex.havoc_value(TL, "vector_ids")
        o.d["vectors_cache"] = ex.havoc_value(TDict(TStr, TArr), "vectors_cache")
        o.d["_vector_count"] = ex.fresh("vector_count", I)
        o.d["clusters"] = ex.havoc_value(TDict(TInt, TL), "clusters")
        o.d["centroids"] = VOpt(ex.fresh("centroids_none", B), ex.fresh_mat(2, "f", "centroids"))
        o.d["_trained"] = ex.fresh("trained", B)

    def fresh_id(self, s):
        pass

    def check(self, what, props=None):
        IndexModel.check(self, what, props)
        if what not in ("insert", "update"):
            return
        ex, s, pre = self.ex, self.S(), self.pre
        C = self.C()
        k, c = ex.fresh("k", Str), ex.fresh("c", I)
        changed = k == self.update_id if what == "update" else z3.Not(pre.has(k))
        ex.check("a trained index puts the vectors of %s into nearest clusters" % what,
                 IMP(z3.And(zb(self.tr0), s.has(k), changed, C.listed(c, k)), self.nearest(c, s.v(k))), "", ("I05",))

    def frame_state(self):
        return None

    def trained(self):
        return zb(self.ex.truth(self.o.d["_trained"]))

    def C(self):
        return Clusters(self.ex, self.o.d["clusters"])

    def cents(self):
        """(is None, number, dimension, row(j))"""
        c = self.o.d["centroids"]
        if c is None:
            return True, z3.IntVal(0), z3.IntVal(0), None
        none = False
        if isinstance(c, VOpt):
            none, c = c.isnone, c.value
        sh = c.d["s"][0]
        if len(sh) != 2:
            raise Unsupported("centroids of rank %d" % len(sh))
        return none, zi(sh[0]), zi(sh[1]), self.ex.rows_of(c)

    def inv(self):
        yield from self.flat_inv()
        yield from self.cluster_inv()

    def ids(self):
        ex = self.ex
        ids = self.o.d.get("vector_ids")
        if not isinstance(ids, VList):
            raise Unsupported("representation of IVFIndex.vector_ids")
        st = ex.sym_list(ex.lst(ids), TStr) if ex.lst(ids)[0] == "c" else ex.lst(ids)
        return st, ex.boxed(st)

    def flat_inv(self):
        ex = self.ex
        cache = self.o.d.get("vectors_cache")
        if not isinstance(cache, VDict):
            raise Unsupported("representation of IVFIndex.vectors_cache")
        s = self.S()
        ini = zb(self.init())
        k = z3.Const("k!i", Str)
        ex.mem_axioms(TL)
        st, b = self.ids()
        mem = lambda x: ex.MEM(TL)(b, x)
        yield "the id list holds exactly the live ids", "I02 I05", IMP(ini, forall(k, mem(k) == s.has(k), mem(k), s.has(k)))
        yield "the id list has no duplicates", "I02 I05", IMP(ini, ex.DISTINCT(TL)(b))
        yield "the id list is as long as the storage is large", "I05", IMP(ini, zi(st[1]) == ex.card(s.dom))
        sc = ex.sym_dict(cache, TStr, TArr)
        al, H = ex.st.d["alloc"], ex.st.d["Hvec"]
        c = lambda x: z3.Select(sc[2], x)
        d = lambda x: z3.Select(sc[1], x)
        yield "cached ids are live", "I02", IMP(ini, forall(k, IMP(d(k), s.has(k)), d(k)))
        yield "cached vectors are the stored ones", "I02 I05", IMP(ini, forall(k, IMP(d(k), z3.Select(H, c(k)) == s.v(k)), c(k)))
        yield "cached arrays are private", "I02 I05", forall(k, IMP(d(k), z3.And(z3.Not(client(c(k))), c(k) >= 0, c(k) < al)), c(k))
        yield "a closed index holds nothing", "", IMP(z3.Not(ini), z3.And(z3.Not(self.trained()), zi(st[1]) == 0, forall(k, z3.Not(d(k)), d(k))))

    def cluster_inv(self, but=None):
        ex = self.ex
        tr = self.trained()
        s, C = self.S(), self.C()
        none, m, D, row = self.cents()
        k, c, e = z3.Const("k!cl", Str), z3.Int("c!cl"), z3.Int("e!cl")
        g = (lambda f: f) if but is None else (lambda f: IMP(k != but, f))
        yield "a trained index has centroids", "I05", IMP(tr, z3.And(NOT(zb(none)), m >= 1, D == self.D))
        yield "no cluster lists a dead id", "I02 I05", IMP(tr, forall([c, k], g(IMP(C.listed(c, k), s.has(k))), C.mem(c, k)))
        yield "no id is twice in a cluster", "I02 I05", IMP(tr, forall(c, IMP(C.dom(c), C.distinct(c)), C.distinct(c), C.nb(c)))
        yield "no id is in two clusters", "I02 I05", IMP(tr, forall([c, e, k], IMP(z3.And(C.listed(c, k), C.listed(e, k)), c == e), (C.mem(c, k), C.mem(e, k))))
        yield "every live id is in a cluster", "I02 I05", IMP(tr, forall(k, g(IMP(s.has(k), exists([c], C.listed(c, k), C.dom(c)))), s.has(k)))
        yield "clusters belong to centroids", "I05", IMP(tr, forall(c, IMP(C.dom(c), z3.And(0 <= c, c < m)), C.dom(c)))
        yield "an untrained index has no clusters", "", IMP(z3.Not(tr), forall(c, z3.Not(C.dom(c)), C.dom(c)))

    def nearest(self, c, vec):
        """Cluster c has a nearest centroid of vec."""
        j = z3.Int("j!ne")
        none, m, D, row = self.cents()
        return forall(j, IMP(z3.And(0 <= j, j < m), self.dist(vec, row(c)) <= self.dist(vec, row(j))), row(j))


def finite_facts(ex):
    a, b = z3.Const("a!inf", Arr), z3.Const("b!inf", Arr)
    for f in ("cossim", "eucdist"):
        t = F(f, Arr, Arr, R)(a, b)
        ex.raw_fact(forall([a, b], (1 - t if f == "cossim" else t) < INF, t))


def strs_in_frames(ex, L):
    xs = {}
    for f in ex.frames[-3:]:
        for nm, v in f.env.d.items():
            if is_sort(v, Str) and not (f is ex.frame and (f.env.sid, nm) in L.info.mods):
                xs.setdefault(v.get_id(), (nm, v))
    return list(xs.values())


def cluster_pool(M, pre=None):
    ex = M.ex

    def pool(L):
        try:
            C = M.C()
            none, m, D, row = M.cents()
        except Unsupported:
            return
        s = M.S()
        k, c, j = z3.Const("k!cp", Str), z3.Int("c!cp"), z3.Int("j!cp")
        pc = L.pre.get((M.o.sid, "clusters"))
        C0 = None
        if isinstance(pc, VDict):
            try:
                C0 = Clusters(ex, ex.prevalue(L.pre, pc))
            except Exception:
                C0 = None
        for nm, x in strs_in_frames(ex, L)[:3]:
            if C0 is not None:
                yield "cl:same~" + nm, forall([c, k], IMP(k != x, C.listed(c, k) == C0.listed(c, k)), C.mem(c, k), C0.mem(c, k))
            for n2, ps, f in M.cluster_inv(but=x):
                yield "cl:%s~%s" % (n2, nm), f
            yield "cl:gone~" + nm, forall(c, z3.Not(C.listed(c, x)), C.mem(c, x))
            if L.i is not None:
                try:
                    y = L.it.key(j) if L.it.key is not None else ex.unopt(L.it.at(j))
                except Exception:
                    y = None
                if isinstance(y, tuple) and y and is_sort(y[0], I):
                    y = y[0]
                if is_sort(y, I):
                    yield "cl:gone<i~" + nm, forall(j, IMP(z3.And(0 <= j, j < L.i), z3.Not(C.listed(y, x))), y)
        if C0 is not None:
            yield "cl:keys", forall(c, C.dom(c) == C0.dom(c), C.dom(c), C0.dom(c))
        # argmin over the centroids
        if row is not None and L.i is not None:
            vs = [v for f in ex.frames[-1:] for v in f.env.d.values() if isinstance(v, VArr) and len(v.d["s"][0]) == 1]
            reals = [(n, v) for n, v in ex.frame.env.d.items() if (is_sort(v, R) or isinstance(v, float)) and (ex.frame.env.sid, n) in L.info.mods]
            ints = [(n, v) for n, v in ex.frame.env.d.items() if (is_sort(v, I) or isinstance(v, int) and not isinstance(v, bool)) and (ex.frame.env.sid, n) in L.info.mods]
            for v in vs[:2]:
                b = content_vec(ex, v)
                for rn, r in reals[:3]:
                    r0 = L.pre.get((ex.frame.env.sid, rn))
                    if is_sort(r0, R) or isinstance(r0, float):
                        yield "am:zero " + rn, IMP(L.i == 0, zr(r) == zr(r0))
                    yield "am:min %s %s" % (rn, b), forall(j, IMP(z3.And(0 <= j, j < L.i), zr(r) <= M.dist(b, row(j))), row(j))
                    for n, q in ints[:3]:
                        yield "am:at %s %s %s" % (rn, n, b), IMP(L.i > 0, zr(r) == M.dist(b, row(zi(q))))
                for n, q in ints[:3]:
                    yield "am:rng " + n, z3.And(0 <= zi(q), z3.Or(zi(q) < L.i, zi(q) == 0))
        # building clusters from labels
        if L.it is not None and L.i is not None and C0 is not None:
            for n1, v in list(ex.frame.env.d.items()):
                if not (isinstance(v, VArr) and len(v.d["s"][0]) == 1 and v.d["s"][2] == "i"):
                    continue
                lab = v.d["s"][1]
                for n2, w in list(ex.frame.env.d.items()):
                    if not (isinstance(w, VList) and ex.lst(w)[0] == "s" and ex.lst(w)[3] == TStr):
                        continue
                    st = ex.lst(w)
                    b = ex.boxed(st)
                    ix = F("lidx_" + TL.name, TL.sort(), Str, I)(b, k)
                    yield "bd:in %s %s" % (n1, n2), forall(j, IMP(z3.And(0 <= j, j < L.i), C.listed(lab(j), st[2](j))), st[2](j))
                    yield "bd:from %s %s" % (n1, n2), forall([c, k], IMP(C.listed(c, k), z3.And(ex.MEM(TL)(b, k), 0 <= ix, ix < L.i, lab(ix) == c)), C.mem(c, k))
                    yield "bd:rng %s" % n1, forall(c, IMP(C.dom(c), z3.And(0 <= c, c < m)), C.dom(c))
        yield "bd:distinct", forall(c, IMP(C.dom(c), C.distinct(c)), C.distinct(c), C.nb(c))
        # placing the new ids
        if row is not None and L.it is not None and L.i is not None and M.place is not None:
            try:
                y = ex.unopt(L.it.at(j))
            except Exception:
                y = None
            if is_sort(y, Str):
                ids = (lambda q: ex.unopt(L.it.at(zi(q))))
                S = M.seen.step(ids, z3.simplify(L.i))
                P = M.place
                yield "pl:nearj", forall([c, j], IMP(z3.And(0 <= j, j < L.i, C.listed(c, ids(j))), M.nearest(c, s.v(ids(j)))), C.mem(c, ids(j)))
                yield "pl:listed", forall([c, k], IMP(z3.And(C.listed(c, k)), z3.Or(P["C0"].listed(c, k), z3.And(S(L.i, k), M.nearest(c, s.v(k))))), C.mem(c, k))
                yield "pl:old", forall([c, k], IMP(P["C0"].listed(c, k), C.listed(c, k)), P["C0"].mem(c, k))
                yield "pl:newj", forall(j, IMP(z3.And(0 <= j, j < L.i), exists([c], C.listed(c, ids(j)), C.dom(c))), ids(j))
                yield "pl:new", forall(k, IMP(S(L.i, k), exists([c], C.listed(c, k), C.dom(c))), S(L.i, k))
    return pool


IvfModel.place = None


# ------------------------------------------------------------------ helper contracts
def havoc_clusters(ex, M):
    ex.write(M.o.d["clusters"], ex.havoc_value(TDict(TInt, TL), "clusters").d["s"])


def add_post(ex, M, C0, x, vec):
    """x is added to one cluster with a nearest centroid."""
    C = M.C()
    none, m, D, row = M.cents()
    c, k = z3.Int("c!ap"), z3.Const("k!ap", Str)
    b = z3.Int("best!ap")
    yield "other ids stay where they are", forall([c, k], IMP(k != x, C.listed(c, k) == C0.listed(c, k)), C.mem(c, k), C0.mem(c, k))
    yield "the id is in a cluster", exists([b], C.listed(b, x), C.dom(b))
    yield "the id is in a nearest cluster only", forall(c, IMP(C.listed(c, x), z3.And(0 <= c, c < m, M.nearest(c, vec))), C.mem(c, x))
    yield "the id is in one cluster only", forall([c, b], IMP(z3.And(C.listed(c, x), C.listed(b, x)), c == b), (C.mem(c, x), C.mem(b, x)))
    yield "no id is twice in a cluster", forall(c, IMP(C.dom(c), C.distinct(c)), C.distinct(c), C.nb(c))
    yield "clusters belong to centroids", forall(c, IMP(C.dom(c), z3.And(0 <= c, c < m)), C.dom(c))


def add_pre(ex, M, x, new):
    C = M.C()
    none, m, D, row = M.cents()
    c, k, e = z3.Int("c!ap"), z3.Const("k!ap", Str), z3.Int("e!ap")
    yield "trained", z3.And(M.trained(), NOT(zb(none)), m >= 1, D == M.D)
    if new:
        yield "the id is in no cluster", forall(c, z3.Not(C.listed(c, x)), C.mem(c, x))
    else:
        yield "the id is in at most one cluster", forall([c, e], IMP(z3.And(C.listed(c, x), C.listed(e, x)), c == e), (C.mem(c, x), C.mem(e, x)))
    yield "no id is twice in a cluster", forall(c, IMP(C.dom(c), C.distinct(c)), C.distinct(c), C.nb(c))
    yield "clusters belong to centroids", forall(c, IMP(C.dom(c), z3.And(0 <= c, c < m)), C.dom(c))


PLACE = {"_add_to_cluster": True, "_update_cluster_assignment": False}


def place_contract(M, name):
    new = PLACE[name]

    def h(ex, obj, args, kw, node=None):
        if obj is not M.o or kw or len(args) != 2:
            raise Unsupported("call of " + name)
        x, vec = zs(ex, args[0]), content_vec(ex, ex.unopt(args[1]))
        for nm, f in add_pre(ex, M, x, new):
            ex.check("before %s: %s" % (name, nm), f)
        C0 = M.C()
        havoc_clusters(ex, M)
        for nm, f in add_post(ex, M, C0, x, vec):
            ex.fact(f)
        return None
    return h


def place_unit(name, props):
    new = PLACE[name]

    @unit("IVFIndex." + name, props)
    def run(ex):
        if not ex.repo.cls(IVF).find(name):
            ex.manual("no helper of this name (inlined)", True, "none", "")
            ex.reached = 1
            return

        def thunk():
            o, M = ivf_setup(ex, IVF, IvfModel, assume=False, helpers=(() if new else ("_add_to_cluster",)))
            x = ex.fresh("id", Str)
            s = M.S()
            v = arg_vec(ex, d=M.D)
            vec = content_vec(ex, v)
            ex.fact(zb(M.init()))
            for nm, f in add_pre(ex, M, x, new):
                ex.fact(f)
            C0 = M.C()
            H, Hm = ex.st.d["Hvec"], ex.st.d["Hmeta"]
            none, m, D, row = M.cents()
            ex.loop_pools = [cluster_pool(M)]
            r = call(ex, o, name, x, v)
            if r[0] == "exc":
                unexpected(ex, r)
            for nm, f in add_post(ex, M, C0, x, vec):
                ex.check("after %s: %s" % (name, nm), f)
            t, y = M.S(), ex.fresh("anyid", Str)
            n2, m2, D2, row2 = M.cents()
            ex.check("%s leaves storage, arrays and centroids alone" % name,
                     z3.And(t.has(y) == s.has(y), t.v(y) == s.v(y), t.m(y) == s.m(y), ex.st.d["Hvec"] == H, ex.st.d["Hmeta"] == Hm, m2 == m,
                            row2(z3.IntVal(0)) == row(z3.IntVal(0)) if row2 is not None else False, M.trained()))
            reached(ex)
        ex.explore(thunk, name)


def train_contract(M):
    """_train_index: from the id list to clusters over all live ids."""
    def h(ex, obj, args, kw, node=None):
        if obj is not M.o or kw or args:
            raise Unsupported("call of _train_index")
        for nm, ps, f in M.flat_inv():
            ex.check("before training: " + nm, f)
        ex.check("before training: initialized", zb(M.init()))
        st, b = M.ids()
        if not ex.branch(zi(st[1]) >= zi(ex.unopt(M.o.d["n_clusters"]))):
            return None
        H = ex.st.d["Hvec"]
        al = ex.st.d["alloc"]
        r = z3.Int("r!tc")
        al2, H2 = ex.fresh("alloc", I), ex.fresh("Hvec", H.sort())
        ex.fact(al2 >= al)
        ex.fact(forall(r, IMP(r < al, z3.Select(H2, r) == z3.Select(H, r)), z3.Select(H2, r)))
        ex.set(ex.st, "alloc", al2)
        ex.set(ex.st, "Hvec", H2)
        ex.write(M.o.d["vectors_cache"], ex.havoc_value(TDict(TStr, TArr), "vectors_cache").d["s"])
        havoc_clusters(ex, M)
        ex.set(M.o, "centroids", ex.fresh_mat(2, "f", "centroids"))
        ex.set(M.o, "_trained", True)
        for nm, ps, f in M.inv():
            ex.fact(f)
        return None
    return h


def ivf_setup(ex, dotted, model, fresh=False, assume=True, helpers=("_add_to_cluster", "_update_cluster_assignment", "_train_index")):
    o, M = index_setup(ex, dotted, model, conf=VConf(types=dict(ICONF)), fresh=fresh, assume=assume)
    finite_facts(ex)
    if o.cls.find("_compute_distance"):
        ex.contracts[dotted + "._compute_distance"] = dist_contract(M)
    for n in helpers:
        if o.cls.find(n):
            ex.contracts[dotted + "." + n] = train_contract(M) if n == "_train_index" else place_contract(M, n)
    M.seen = Seen(ex)
    return o, M


@unit("IVFIndex._train_index", "I02 I05")
def train_unit(ex):
    if not ex.repo.cls(IVF).find("_train_index"):
        ex.manual("no helper of this name (inlined)", True, "none", "")
        ex.reached = 1
        return

    def thunk():
        o, M = ivf_setup(ex, IVF, IvfModel, assume=False, helpers=())
        s = M.S()
        ex.fact(zb(M.init()))
        for _, _, f in M.store_inv():
            ex.fact(f)
        for _, _, f in M.flat_inv():
            ex.fact(f)
        M.alloc0, M.Hv0, M.Hm0 = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
        H, al = M.Hv0, M.alloc0
        st, b = M.ids()
        tr0 = M.trained()
        enough = zi(st[1]) >= zi(ex.unopt(o.d["n_clusters"]))
        ex.loop_pools = [lambda L: (("inv:" + nm, f) for nm, _, f in M.flat_inv()), search_pool(M, z3.Const("noquery", Arr)), cluster_pool(M)]
        r = call(ex, o, "_train_index")
        if r[0] == "exc":
            unexpected(ex, r)
        ex.check("training happens when there are enough vectors", IMP(enough, M.trained()))
        ex.check("no training with too few vectors", IMP(z3.Not(enough), M.trained() == tr0))
        for nm, ps, f in M.flat_inv():
            ex.check("after training: " + nm, f)
        for nm, ps, f in M.cluster_inv():
            ex.check("after training: " + nm, IMP(enough, f))
        t, y, q = M.S(), ex.fresh("anyid", Str), ex.fresh("ref", I)
        ex.check("training leaves the storage alone", z3.And(t.has(y) == s.has(y), t.v(y) == s.v(y), t.m(y) == s.m(y)))
        ex.check("training leaves existing arrays and dictionaries alone",
                 z3.And(ex.st.d["alloc"] >= al, IMP(q < al, z3.Select(ex.st.d["Hvec"], q) == z3.Select(H, q))))
        reached(ex)
    ex.explore(thunk, "train")


compute_distance_unit("IVFIndex", IVF, IvfModel, "I02 I05")
for _n in PLACE:
    place_unit(_n, "I02 I05")


# ------------------------------------------------------------------ public operations
def probe_pool(M):
    """Search: the candidates collected so far come from clusters probed before, each cluster is probed once."""
    ex = M.ex

    def pool(L):
        if L.i is None or L.it is None:
            return
        try:
            C = M.C()
        except Unsupported:
            return
        j, m = z3.Int("j!pb"), z3.Int("m!pb")
        try:
            y, N = ex.unopt(L.it.at(m)), zi(L.it.len)
        except Exception:
            y = None
        for nm, st, p in ex.typed_lists(L):
            t = st[3]
            if isinstance(t, TTup) and t.ts and t.ts[0] == TInt:
                yield nm + ":index", forall(j, IMP(z3.And(0 <= j, j < st[1]), ex.acc(t, 0, st[2](j)) == j), st[2](j))
        for nm, n, gid, gd, at, mod in pair_lists(ex, L):
            if not mod:
                continue
            if is_sort(y, I):
                k = z3.Const("k!pb", Str)
                yield nm + ":pball", forall([m, k], IMP(z3.And(0 <= m, m < L.i, C.listed(y, k)), exists([j], z3.And(0 <= j, j < n, gid(j) == k), at(j))), C.mem(y, k))
                yield nm + ":pbfut", forall([j, m], IMP(z3.And(0 <= j, j < n, L.i <= m, m < N), z3.Not(C.listed(y, gid(j)))), (at(j), y))
            if is_sort(y, Str):
                pv = [ex.list_len(p) for n9, v, p in ex.lists_of(L) if n9 == nm and p is not None]
                if pv:
                    p0 = zi(pv[0])
                    q9 = [ex.lst(p) for n9, v, p in ex.lists_of(L) if n9 == nm and p is not None][0]
                    if q9[0] == "s":
                        yield nm + ":pbpre", forall(j, IMP(z3.And(0 <= j, j < p0), z3.And(j < n, at(j) == q9[2](j))), q9[2](j))
                    yield nm + ":pbcov", z3.And(n == p0 + L.i, forall(m, IMP(z3.And(0 <= m, m < L.i), gid(p0 + m) == y), y))
                yield nm + ":pbsrc", forall(m, IMP(z3.And(0 <= m, m < L.i), z3.And(n > m, gid(m) == y)), y)
                yield nm + ":pbnext", forall([j, m], IMP(z3.And(0 <= j, j < n, L.i <= m, m < N), gid(j) != y), (at(j), y))
        for nm, v, p in ex.lists_of(L):
            st = ex.lst(v)
            if p is None or st[0] != "s" or not isinstance(st[3], TTup):
                continue
            pn = zi(ex.list_len(p))
            for n2, n, gid, gd, at, mod in pair_lists(ex, L):
                if n2 != nm:
                    continue
                for ln, c in list(ex.frame.env.d.items()):
                    if is_sort(c, I) and (ex.frame.env.sid, ln) not in L.info.mods:
                        yield "%s:pbfrom %s" % (nm, ln), forall(j, IMP(z3.And(pn <= j, j < n), C.listed(c, gid(j))), at(j))
    return pool


def placing(M, pre):
    """Insert and update on a trained index put ids into nearest clusters (I05)."""
    M.place = {"C0": M.C()}
    M.tr0 = M.trained()
    return cluster_pool(M, pre)


insert_unit("IVFIndex", IVF, IvfModel, "I02 I05 I08", setup_fn=ivf_setup, pools=(placing,))
delete_unit("IVFIndex", IVF, IvfModel, "I02 I05", setup_fn=ivf_setup, pools=(cluster_pool,))
update_unit("IVFIndex", IVF, IvfModel, "I02 I05", setup_fn=ivf_setup, pools=(placing,))
lifecycle_unit("IVFIndex", IVF, IvfModel, "I02 I05", setup_fn=ivf_setup, pools=(cluster_pool,))
def exhaustive(M):
    """Untrained, or every cluster is probed: then the search is exact."""
    if z3.is_true(z3.simplify(M.trained())):
        return False
    none, m, D, row = M.cents()
    M.ex.on_sort = lambda ex, *a: ranks(M, *a)
    return z3.Or(z3.Not(M.trained()), zi(M.ex.unopt(M.o.d["n_probes"])) >= m)


def ranks(M, at, d, inv, n, t):
    """Sorting a list of (number, ...) in which number j stands at place j keeps every number (derived, then offered under another trigger)."""
    ex = M.ex
    if not isinstance(t, TTup) or not t.ts or t.ts[0] != TInt:
        return
    c = ex.fresh("c", I)
    g = lambda c: IMP(z3.And(0 <= c, c < n), z3.And(0 <= inv(c), inv(c) < n, ex.acc(t, 0, d(inv(c))) == c))
    if ex.prove(IMP(z3.And(0 <= c, c < n), ex.acc(t, 0, at(c)) == c)):
        if ex.prove(z3.Or(g(c), F("hint", t.sort(), B)(at(c)))):
            b = z3.Int("c!rk")
            ex.fact(forall(b, g(b), M.C().dom(b)))


search_unit("IVFIndex", IVF, IvfModel, "I02 I05", setup_fn=ivf_setup, exact=("I05",), when=exhaustive, pools=(lambda M, s, q, k: pairs_pool(M, q), lambda M, s, q, k: probe_pool(M)))
