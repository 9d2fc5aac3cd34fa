"""HNSWIndex (I02, I03, I04, I08)."""
from .index_common import *

HNSW = "valori.indices.hnsw.HNSWIndex"
TNB = TList(TStr)
TLV = TDict(TStr, TNB)
HCONF = {"metric": TStr, "m": TInt, "M": TInt, "ef_construction": TInt, "ef_search": TInt}


class HnswModel(IndexModel):
    fields = ("levels", "vectors", "max_level", "_vector_count", "m", "ef_construction", "ef_search")

    def __init__(self, ex, obj, sb):
        IndexModel.__init__(self, ex, obj, sb)
        for f in ("m", "ef_search"):
            x = obj.d.get(f)
            if is_sort(x, I):
                ex.fact(x >= 1)

    def havoc(self):
        ex, o = self.ex, self.o
        o.d["levels"] = ex.havoc_value(TList(TLV), "levels")
        o.d["vectors"] = ex.havoc_value(TDict(TStr, TArr), "vectors")
        o.d["max_level"] = ex.fresh("max_level", I)
        o.d["_vector_count"] = ex.fresh("vector_count", I)

    def fresh_id(self, s):
        pass

    def frame_state(self):
        return None

    # graph accessors of the current state
    def graph(self, levels=None):
        ex = self.ex
        lv = levels if levels is not None else self.o.d.get("levels")
        if not isinstance(lv, VList):
            raise Unsupported("representation of HNSWIndex.levels")
        st = ex.lst(lv)
        st = ex.sym_list(st, TLV) if st[0] == "c" and st[1] else st
        if st[0] == "c":
            d = z3.Const("nil_levels", z3.ArraySort(I, TLV.sort()))
            st = ("s", z3.IntVal(0), ex.sel(d), TLV, d)
        ex.mem_axioms(TNB)
        return Graph(ex, st)

    def inv(self):
        ex = self.ex
        s, T = self.S(), self.table()
        k = z3.Const("k!h", Str)
        ini = zb(self.init())
        H = ex.st.d["Hvec"]
        yield "the vector table holds exactly the live ids", "I02 I03", IMP(ini, forall(k, T.d(k) == s.has(k), T.d(k), s.has(k)))
        yield "held vectors are the stored ones", "I02 I03", IMP(ini, forall(k, IMP(T.d(k), z3.Select(H, T.c(k)) == s.v(k)), T.c(k)))
        yield "the vector count of the table equals the storage", "", IMP(ini, T.card() == ex.card(s.dom))
        yield "a closed index holds nothing", "", IMP(z3.Not(ini), forall(k, z3.Not(T.d(k)), T.d(k)))
        yield from self.structure()

    def table(self):
        vd = self.o.d.get("vectors")
        if not isinstance(vd, VDict):
            raise Unsupported("representation of HNSWIndex.vectors")
        return Table(self.ex, self.ex.sym_dict(vd, TStr, TArr))

    def structure(self):
        """What holds of the graph and the vector table whatever the storage contains."""
        ex = self.ex
        ini = zb(self.init())
        g, T = self.graph(), self.table()
        d, c = T.d, T.c
        al = ex.st.d["alloc"]
        k, a, b, l = z3.Const("k!h", Str), z3.Const("a!h", Str), z3.Const("b!h", Str), z3.Int("l!h")
        yield "held arrays are private", "I02 I03", forall(k, IMP(d(k), z3.And(z3.Not(client(c(k))), c(k) >= 0, c(k) < al)), c(k))
        yield "there is a bottom level", "I03 I04", IMP(ini, g.n >= 1)
        yield "the bottom level holds exactly the ids of the table", "I03 I04", IMP(ini, forall(k, g.dom(0, k) == d(k), g.dom(0, k), d(k)))
        yield "every node is in the table", "I03 I04", IMP(ini, forall([l, k], IMP(z3.And(0 <= l, l < g.n, g.dom(l, k)), d(k)), g.dom(l, k)))
        yield "every node is on the level below", "I04", forall([l, k], IMP(z3.And(1 <= l, l < g.n, g.dom(l, k)), g.dom(l - 1, k)), g.dom(l, k))
        e = z3.And(0 <= l, l < g.n, g.dom(l, a), g.edge(l, a, b))
        yield "edges connect nodes of the level", "I04", forall([l, a, b], IMP(e, g.dom(l, b)), g.edge(l, a, b))
        yield "edges are present in both directions", "I04", forall([l, a, b], IMP(e, g.edge(l, b, a)), g.edge(l, a, b))
        yield "no node is linked to itself", "I04", forall([l, a, b], IMP(e, a != b), g.edge(l, a, b))
        yield "no node is linked twice", "I04", forall([l, a], IMP(z3.And(0 <= l, l < g.n, g.dom(l, a)), g.distinct(l, a)), g.distinct(l, a), g.nb(l, a))
        ml = self.o.d.get("max_level")
        if isnum(ml):
            yield "the top level is a level number", "", zi(ml) >= 0


class Table:
    def __init__(self, ex, sd):
        self.ex, self.sd = ex, sd

    def d(self, k):
        return z3.Select(self.sd[1], k)

    def c(self, k):
        return z3.Select(self.sd[2], k)

    def card(self):
        return self.ex.card(self.sd[1])


HELPERS = {"_insert_vector_internal": True, "_remove_vector_internal": False}


def helper_post(ex, M, T0, H0, x, c, adds):
    """Relation between the vector tables before and after a helper."""
    T, H = M.table(), ex.st.d["Hvec"]
    k = z3.Const("k!hp", Str)
    one = z3.If(T0.d(x), 0, 1) if adds else z3.If(T0.d(x), -1, 0)
    yield "the table changes at the id only", "I02 I03", forall(k, T.d(k) == (z3.Or(T0.d(k), k == x) if adds else z3.And(T0.d(k), k != x)), T.d(k), T0.d(k))
    yield "the table keeps the other vectors", "I02 I03", forall(k, IMP(z3.And(T0.d(k), k != x), z3.Select(H, T.c(k)) == z3.Select(H0, T0.c(k))), T.c(k))
    yield "the table size changes by one at most", "", T.card() == T0.card() + one
    if adds:
        yield "the table holds the vector", "I02 I03", z3.Select(H, T.c(x)) == c


def helper_contract(M, name):
    """Contract of the two graph helpers: they keep the structure and add or remove exactly one id."""
    adds = HELPERS[name]

    def h(ex, obj, args, kw, node=None):
        if obj is not M.o or kw or len(args) != (2 if adds else 1):
            raise Unsupported("call of " + name)
        x = zs(ex, args[0])
        for nm, ps, f in M.structure():
            ex.check("before %s: %s" % (name, nm), f, "", tuple(ps.split()) if ps else None)
        T0, H = M.table(), ex.st.d["Hvec"]
        c = None
        if adds:
            ex.check("before %s: the id is new" % name, z3.Not(T0.d(x)))
            c = content_vec(ex, ex.unopt(args[1]))
        al = ex.st.d["alloc"]
        r = z3.Int("r!hc")
        al2, H2 = ex.fresh("alloc", I), ex.fresh("Hvec", H.sort())
        ex.fact(al2 >= al)
        ex.fact(forall(r, IMP(r < al, z3.Select(H2, r) == z3.Select(H, r)), z3.Select(H2, r)))
        ex.set(ex.st, "alloc", al2)
        ex.set(ex.st, "Hvec", H2)
        ex.write(M.o.d["levels"], ex.havoc_value(TList(TLV), "levels").d["s"])
        ex.write(M.o.d["vectors"], ex.havoc_value(TDict(TStr, TArr), "vectors").d["s"])
        ex.set(M.o, "max_level", ex.fresh("max_level", I))
        ex.set(M.o, "_vector_count", ex.fresh("vector_count", I))
        for nm, ps, f in itertools.chain(M.structure(), helper_post(ex, M, T0, H, x, c, adds)):
            ex.fact(f)
        return None
    return h


def helper_unit(name, props):
    adds = HELPERS[name]

    @unit("HNSWIndex." + name, props)
    def run(ex):
        if not ex.repo.cls(HNSW).find(name):
            ex.manual("no helper of this name (inlined)", True, "none", "")
            ex.reached = 1
            return

        def thunk():
            o, M = hnsw_setup(ex, HNSW, HnswModel, assume=False, helpers=False)
            x = ex.fresh("id", Str)
            ex.fact(zb(M.init()))
            s = M.S()
            for nm, ps, f in M.structure():
                ex.fact(f)
            args = [x]
            T0 = M.table()
            c = None
            if adds:
                v = arg_vec(ex, d=M.D)
                c = content_vec(ex, v)
                ex.fact(z3.Not(T0.d(x)))
                args.append(v)
            al, H, Hm = ex.st.d["alloc"], ex.st.d["Hvec"], ex.st.d["Hmeta"]
            M.alloc0, M.Hv0, M.Hm0 = al, H, Hm
            M.target = x
            ex.loop_pools = [lambda L: (("inv:" + nm, f) for nm, _, f in M.structure()), graph_pool(M, s)]
            r = call(ex, o, name, *args)
            if r[0] == "exc":
                unexpected(ex, r)
            for nm, ps, f in itertools.chain(M.structure(), helper_post(ex, M, T0, H, x, c, adds)):
                ex.check("after %s: %s" % (name, nm), f, "", tuple(ps.split()) if ps else None)
            t, y, q = M.S(), ex.fresh("anyid", Str), ex.fresh("ref", I)
            ex.check("%s leaves the storage alone" % name, z3.And(t.has(y) == s.has(y), t.v(y) == s.v(y), t.m(y) == s.m(y)))
            ex.check("%s leaves existing arrays and dictionaries alone" % name,
                     z3.And(ex.st.d["alloc"] >= al, IMP(q < al, z3.Select(ex.st.d["Hvec"], q) == z3.Select(H, q)), ex.st.d["Hmeta"] == Hm))
            reached(ex)
        ex.explore(thunk, name)


class Seen:
    """SEEN(i, k): k is among the first i ids of the list (skolemized definition)."""

    def __init__(self, ex):
        self.ex, self.done = ex, {}

    def of(self, at):
        ex = self.ex
        j, k = z3.Int("j!sn"), z3.Const("k!sn", Str)
        key = at(z3.Int("j!key")).get_id()
        if key not in self.done:
            self.done[key] = (F("SEEN!%d" % len(self.done), I, Str, B), F("SEENW!%d" % len(self.done), I, Str, I), at(z3.Int("j!key")))
        S, W, _ = self.done[key]
        i = z3.Int("i!sn")
        ex.raw_fact(forall([i, k], IMP(S(i, k), z3.And(0 <= W(i, k), W(i, k) < i, at(W(i, k)) == k)), S(i, k)))
        ex.raw_fact(forall([i, j], IMP(z3.And(0 <= j, j < i), S(i, at(j))), (S(i, at(j)),)))
        return S

    def step(self, at, i):
        """Consequences of the definition at i."""
        S = self.of(at)
        k = z3.Const("k!sn", Str)
        self.ex.raw_fact(forall(k, z3.Not(S(0, k)), S(0, k)))
        self.ex.raw_fact(IMP(i >= 0, forall(k, S(i + 1, k) == z3.Or(S(i, k), at(i) == k), S(i + 1, k), S(i, k))))
        return S


def load_pool(M, s):
    """Loading the ids of the storage one after the other."""
    ex = M.ex
    seen = Seen(ex)

    def pool(L):
        if L.i is None or L.it is None:
            return
        j, k = z3.Int("j!lp"), z3.Const("k!lp", Str)
        try:
            if not is_sort(ex.unopt(L.it.at(j)), Str):
                return
            T = M.table()
        except Exception:
            return
        S = seen.step(lambda q: ex.unopt(L.it.at(zi(q))), z3.simplify(L.i))
        yield "load:table", forall(k, T.d(k) == S(L.i, k), T.d(k), S(L.i, k))
        H = ex.st.d["Hvec"]
        yield "load:vec", forall(k, IMP(T.d(k), z3.Select(H, T.c(k)) == s.v(k)), T.c(k))
        yield "load:card", T.card() == L.i
        r = z3.Int("r!lp")
        yield "load:heap", forall(r, IMP(r < M.alloc0, z3.Select(H, r) == z3.Select(M.Hv0, r)), z3.Select(H, r))
        yield "load:metaheap", forall(r, IMP(r < M.alloc0, z3.Select(ex.st.d["Hmeta"], r) == z3.Select(M.Hm0, r)), z3.Select(ex.st.d["Hmeta"], r))
    return pool


class Graph:
    def __init__(self, ex, st):
        self.ex, self.st, self.n = ex, st, zi(st[1])

    def _d(self, l):
        x = self.st[2](zi(l))
        return self.ex.acc(TLV, 0, x), self.ex.acc(TLV, 1, x)

    def dom(self, l, k):
        return z3.Select(self._d(l)[0], k)

    def domset(self, l):
        return self._d(l)[0]

    def nb(self, l, k):
        return z3.Select(self._d(l)[1], k)

    def edge(self, l, a, b):
        return self.ex.MEM(TNB)(self.nb(l, a), b)

    def distinct(self, l, a):
        return self.ex.DISTINCT(TNB)(self.nb(l, a))


def graph_pool(M, pre):
    """While an id is being added to or removed from the graph."""
    ex = M.ex

    def pool(L):
        try:
            g = M.graph()
            T = M.table()
        except Unsupported:
            return
        k, a, b, l, j = z3.Const("k!g", Str), z3.Const("a!g", Str), z3.Const("b!g", Str), z3.Int("l!g"), z3.Int("j!g")
        try:
            g0 = M.graph(ex.prevalue(L.pre, M.o.d["levels"]))
        except Exception:
            g0 = None
        xs = {}
        for f in ex.frames[-3:]:
            for nm, v in f.env.d.items():
                if is_sort(v, Str) and not (f is ex.frame and (f.env.sid, nm) in L.info.mods):
                    xs.setdefault(v.get_id(), (nm, v))
        lvl = [(0 <= l), (l < g.n)]
        for _, (nm, x) in list(xs.items())[:3]:
            yield "g:bottom~" + nm, forall(k, IMP(k != x, g.dom(0, k) == T.d(k)), g.dom(0, k), T.d(k))
            yield "g:below~" + nm, forall([l, k], IMP(z3.And(k != x, 1 <= l, l < g.n, g.dom(l, k)), g.dom(l - 1, k)), g.dom(l, k))
            yield "g:live~" + nm, forall([l, k], IMP(z3.And(k != x, *lvl, g.dom(l, k)), T.d(k)), g.dom(l, k))
            yield "g:absent~" + nm, forall(l, IMP(z3.And(*lvl), z3.Not(g.dom(l, x))), g.dom(l, x))
            yield "g:present0~" + nm, g.dom(0, x)
            e = z3.And(*lvl, a != x, g.dom(l, a), g.edge(l, a, b))
            yield "g:both~" + nm, forall([l, a, b], IMP(e, z3.And(g.dom(l, b), g.edge(l, b, a))), g.edge(l, a, b))
            yield "g:table-" + nm, z3.Not(T.d(x))
            if L.i is not None:
                yield "g:gone<i~" + nm, forall(j, IMP(z3.And(0 <= j, j < L.i, j < g.n), z3.Not(g.dom(j, x))), g.dom(j, x))
                try:
                    y = ex.unopt(L.it.at(L.i))
                except Exception:
                    y = None
                if isnum(y) and not is_sort(y, R):
                    yield "g:there<at~" + nm, forall(j, IMP(z3.And(0 <= j, j < zi(y), j < g.n), g.dom(j, x)), g.dom(j, x))
                try:
                    y = ex.unopt(L.it.at(j))
                except Exception:
                    y = None
                if is_sort(y, Str):
                    for vn, v in ex.frame.env.d.items():
                        if isinstance(v, VDict) and v.parent and v.parent[0] is M.o.d["levels"]:
                            key = v.parent[1]
                            yield "g:cut<i~%s~%s" % (nm, vn), forall(j, IMP(z3.And(0 <= j, j < L.i), z3.Not(g.edge(key, y, x))), y)
                    for vn, v in ex.frame.env.d.items():
                        if is_sort(v, I):
                            yield "g:cut<i~%s~%s" % (nm, vn), forall(j, IMP(z3.And(0 <= j, j < L.i), z3.Not(g.edge(v, y, x))), y)
        if g0 is not None:
            for vn, v in ex.frame.env.d.items():
                key = v if is_sort(v, I) else v.parent[1] if isinstance(v, VDict) and v.parent and v.parent[0] is M.o.d["levels"] else None
                if key is not None and (ex.frame.env.sid, vn) not in L.info.mods:
                    yield "g:others~" + vn, forall(l, IMP(z3.And(0 <= l, l < g0.n, l != key), g.st[2](l) == g0.st[2](l)), g.st[2](l))
            yield "g:nlevels", g.n == g0.n
            yield "g:nodes=", forall([l, k], IMP(z3.And(0 <= l, l < g0.n), g.dom(l, k) == g0.dom(l, k)), g.dom(l, k))
            yield "g:nodes+", forall([l, k], IMP(z3.And(0 <= l, l < g0.n, g0.dom(l, k)), g.dom(l, k)), g0.dom(l, k), g.dom(l, k))
            yield "g:edges-", forall([l, a, b], IMP(z3.And(0 <= l, l < g0.n, g.edge(l, a, b)), g0.edge(l, a, b)), g.edge(l, a, b))
    return pool


def dist_contract(M):
    def h(ex, obj, args, kw, node=None):
        a, b = content_vec(ex, ex.unopt(args[0])), content_vec(ex, ex.unopt(args[1]))
        ex.need(adim(a, 0) == adim(b, 0), "ValueError", node)
        return M.dist(a, b)
    return h


def hnsw_setup(ex, dotted, model, fresh=False, assume=True, helpers=True):
    o, M = index_setup(ex, dotted, model, conf=VConf(types=dict(HCONF)), fresh=fresh, assume=assume)
    if o.cls.find("_compute_distance"):
        ex.contracts[dotted + "._compute_distance"] = dist_contract(M)
    if helpers:
        for n in HELPERS:
            if o.cls.find(n):
                ex.contracts[dotted + "." + n] = helper_contract(M, n)
    return o, M


def compute_distance_unit(name, dotted, model, props):
    @unit(name + "._compute_distance", props)
    def run(ex):
        if not ex.repo.cls(dotted).find("_compute_distance"):
            ex.manual("no separate distance function", True, "none", "")
            ex.reached = 1
            return

        def thunk():
            o, M = index_setup(ex, dotted, model, conf=VConf(types=dict(HCONF)))
            ex.dist_axioms()
            v, w = arg_vec(ex, "v", M.D), arg_vec(ex, "w", M.D)
            r = call(ex, o, "_compute_distance", v, w)
            if r[0] == "exc":
                unexpected(ex, r)
            a, b = content_vec(ex, v), content_vec(ex, w)
            ex.check("the distance of two vectors", zr(r[1]) == M.dist(a, b))
            ex.check("the vectors are not modified", z3.And(ex.vec_at(v.ref) == a, ex.vec_at(w.ref) == b))
            reached(ex)
        ex.explore(thunk, "distance")


compute_distance_unit("HNSWIndex", HNSW, HnswModel, "I02 I03")
for _n in HELPERS:
    helper_unit(_n, "I02 I03 I04 I08")
insert_unit("HNSWIndex", HNSW, HnswModel, "I02 I03 I04 I08", setup_fn=hnsw_setup, pools=(graph_pool,))
delete_unit("HNSWIndex", HNSW, HnswModel, "I02 I03 I04 I08", setup_fn=hnsw_setup, pools=(graph_pool,))
update_unit("HNSWIndex", HNSW, HnswModel, "I02 I03 I04 I08", setup_fn=hnsw_setup, pools=(graph_pool,))
search_unit("HNSWIndex", HNSW, HnswModel, "I02 I03 I04 I08", setup_fn=hnsw_setup, atleast=("I03",), pools=(lambda M, s, q, k: pairs_pool(M, q),))
lifecycle_unit("HNSWIndex", HNSW, HnswModel, "I02 I03 I04 I08", setup_fn=hnsw_setup, pools=(graph_pool, load_pool))
