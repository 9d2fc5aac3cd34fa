"""BatchManager (U04)."""
from .common import *

BM = "valori.utils.batch_manager.BatchManager"
IDOF = lambda p: F("id_of_vector", I, Str)(p)
TM = TOpt(TMeta)


class Batch:
    """The client's side: what it was given, as ghost counters over the input positions."""

    def __init__(self, ex, V, M, n, size):
        self.ex, self.V, self.M, self.n, self.size = ex, V, M, n, size
        self.o = VObj("Client", {"pos": z3.IntVal(0), "processed": z3.IntVal(0), "failed": z3.IntVal(0), "ids": VList(("s", z3.IntVal(0), lambda j: IDOF(zi(j)), TStr, None)),
                                 "calls": z3.IntVal(0)})
        ex.ifaces["Client"] = self.attr

    def attr(self, ex, o, name, node):
        if name != "insert":
            raise Unsupported("client method " + name)
        return VPy(self.insert, "insert")

    def insert(self, ex, args, kw, node):
        if ex.pure:
            raise NeedFork()
        d = dict(zip(("vectors", "metadata"), args), **kw)
        v, m = ex.unopt(d.get("vectors")), ex.unopt(d.get("metadata"))
        if not isinstance(v, VArr) or len(v.d["s"][0]) != 2 or not isinstance(m, VList):
            raise Unsupported("arguments of insert")
        o = self.o
        pos = o.d["pos"]
        s, l = v.d["s"], ex.lst(m)
        b = zi(s[0][0])
        r, q = ex.fresh("r", I), ex.fresh("q", I)
        ex.check("a batch has between one vector and the batch size", z3.And(1 <= b, b <= self.size))
        ex.check("a batch continues where the previous one ended", pos + b <= self.n)
        ex.check("a batch holds the next vectors in order", z3.And(zi(s[0][1]) == zi(self.V[0][1]), IMP(z3.And(0 <= r, r < b, 0 <= q, q < zi(s[0][1])), zr(s[1](r, q)) == zr(self.V[1](pos + r, q)))))
        if l[0] == "c":
            l = ex.sym_list(l, TM)
        ex.check("a batch holds the metadata entries of its vectors", z3.And(zi(l[1]) == b, IMP(z3.And(0 <= r, r < b), l[2](r) == self.M[2](pos + r))))
        ex.set(o, "pos", pos + b)
        ex.set(o, "calls", o.d["calls"] + 1)
        if ex.choose(2):
            ex.set(o, "failed", o.d["failed"] + b)
            raise PyRaise(VExc("Exception", ("insert failed",)))
        ex.set(o, "processed", o.d["processed"] + b)
        ids = VList(("s", b, lambda j: IDOF(pos + zi(j)), TStr, None))
        ex.list_extend(o.d["ids"], ids)
        return VList(("s", b, lambda j: IDOF(pos + zi(j)), TStr, None))


def manager(ex):
    size, workers = ex.fresh("batch_size", I), ex.fresh("max_workers", I)
    ex.fact(z3.And(size >= 1, workers >= 1))
    ci = ex.repo.cls(BM)
    o = VObj(ci)
    k, m = ci.find("__init__")
    ex.call_func(VFunc(m, k.mod, None, k, o), [size, workers], {})
    for f in ("progress_callback", "error_callback"):
        if f not in o.d:
            raise Unsupported("representation of the batch manager")
        o.d[f] = VOpt(ex.fresh(f + "_none", B), VOpaque(ex.fresh(f, Obj), "callback"))
    st = o.d.get("_stats")
    if not isinstance(st, VDict) or ex.dct(st)[0] != "c":
        raise Unsupported("representation of the statistics")
    # statistics of earlier runs
    ex.write(st, ("c", {k: ex.fresh("old_" + k, I) if isinstance(v, int) and not isinstance(v, bool) else VOpt(ex.fresh("old_none", B), ex.fresh("old_" + k, R)) for k, v in ex.dct(st)[1].items()}))
    from .storage import havoc_rest
    havoc_rest(ex, o, {"batch_size", "max_workers", "progress_callback", "error_callback", "_stats"})
    # callbacks do not raise
    ex.opaque_call = lambda f, args, kw, node: None
    return o, size


@unit("BatchManager.batch_insert", "U04")
def insert_unit(ex):
    ex.linear_ranges = True
    def thunk():
        setup(ex)
        o, size = manager(ex)
        V = ex.fresh_mat(2, "f", "vectors")
        s = V.d["s"]
        n = zi(s[0][0])
        ex.fact(z3.And(n >= 0, zi(s[0][1]) >= 0))
        M = ex.havoc_value(TList(TM), "metadata")
        ms = ex.lst(M)
        ex.fact(zi(ms[1]) == n)
        cl = Batch(ex, s, ms, n, size)
        stats = lambda k: ex.call(ex.getattr(o.d["_stats"], "get"), [k], {})

        def pool(L):
            c = cl.o.d
            if L.i is not None:
                f = L.it.at(L.i)
                if isnum(f):
                    yield "pos", c["pos"] == z3.If(L.i < L.it.len, zi(f), n)
                    # batches counted by number: size * number
                    m = zi(L.n)
                    ex.fact(IMP(L.i < m, L.i * size + size <= m * size))
                    yield "posmul", c["pos"] == z3.If(L.i * size < n, L.i * size, n)
            else:
                for nm, v, _ in ex.ints_of(L):
                    if v is not c["pos"]:
                        yield "pos:" + nm, c["pos"] == z3.If(zi(v) < n, zi(v), n)
                        yield nm + ">=0", zi(v) >= 0
            yield "pos0", z3.And(c["pos"] >= 0, c["pos"] <= n)
            yield "sum", c["processed"] + c["failed"] == c["pos"]
            yield "len", zi(ex.list_len(cl.o.d["ids"])) == c["processed"]
            for k, g in (("processed_items", "processed"), ("failed_items", "failed")):
                x = stats(k)
                if isnum(x):
                    yield k, zi(x) == c[g]
            x = stats("total_items")
            if isnum(x):
                yield "total", zi(x) == n
            sb = ex.lst(c["ids"])
            j = z3.Int("j!bp")
            for nm, st, _ in ex.typed_lists(L):
                if st[3] == TStr and st[2] is not sb[2]:
                    yield nm + ":len", zi(st[1]) == zi(sb[1])
                    yield nm + ":ids", forall(j, IMP(z3.And(0 <= j, j < zi(st[1])), st[2](j) == sb[2](j)), st[2](j), sb[2](j))
        ex.loop_pools = [pool]
        r = call(ex, o, "batch_insert", cl.o, V, M, ex.fresh("show_progress", B))
        if r[0] == "exc":
            unexpected(ex, r)
        c = cl.o.d
        ex.check("every vector is passed on", c["pos"] == n)
        res = r[1]
        if not isinstance(res, VList):
            ex.check("the result is a list of ids", False)
            return
        sb = ex.lst(c["ids"])
        j = ex.fresh("j", I)
        sa = ex.lst(res)
        ex.check("as many ids as vectors of successful batches", zi(ex.list_len(res)) == zi(sb[1]))
        if sa[0] == "s":
            ex.check("the ids of the successful batches in input order", IMP(z3.And(0 <= j, j < zi(sb[1])), sa[2](j) == sb[2](j)))
        g = call(ex, o, "get_stats")
        if g[0] == "exc":
            unexpected(ex, g, "in get_stats")
        d = ex.dct(g[1])[1]
        for k, w in (("total_items", n), ("processed_items", c["processed"]), ("failed_items", c["failed"])):
            v = d.get(k)
            ex.check("the statistics report this run's %s" % k, zi(v) == w if isnum(v) else False)
        ex.check("processed and failed make the total", c["processed"] + c["failed"] == n)
        reached(ex)
    ex.explore(thunk, "batch_insert")


# ------------------------------------------------------------------ parallel insertion
RNG = z3.ArraySort(I, B)
FIDX = F("future_index", Obj, I)


def leaves(ex, t, x):
    """(type, term) of the parts of a task argument."""
    if isinstance(t, (TTup, TRec)):
        for i, y in enumerate(t.ts if isinstance(t, TTup) else t.fields.values()):
            yield from leaves(ex, y, ex.acc(t, i, x))
    else:
        yield t, x


class Pool:
    """Executor and futures.  Contract (trusted): every submitted task runs exactly once, in any order and any thread; as_completed yields each of the
    given futures once, in any order; result() gives what the task returned or raised.  Tasks may not write shared state of the verified code."""

    def __init__(self, ex, V, M, n, size, kept):
        self.ex, self.V, self.M, self.n, self.size = ex, V, M, n, size
        self.kept = kept            # task function and shape of its argument, known from the analysis of the submitting code
        self.o = VObj("Client", {"calls": z3.IntVal(0)})
        self.g = VObj("Executor", {"count": z3.IntVal(0), "$futs": ex.fresh("futs", z3.ArraySort(I, Obj))})
        self.argt = kept.get("type")
        self.cur = self.byid = None
        self.D = None
        ok = ex.fresh("batch_ok", RNG)
        self.ok = lambda k: z3.Select(ok, k)
        self.wok, self.wbad = F("sum_ok", RNG, I), F("sum_bad", RNG, I)
        self.C = F("ok_before", I, I)
        self.E = F("expected_id", I, Str)
        ex.ifaces["Client"] = self.attr
        ex.ifaces["Executor"] = self.pool_attr
        ex.ifaces["Future"] = self.fut_attr
        ex.lib_concurrent_futures_ThreadPoolExecutor = self.executor
        ex.lib_concurrent_futures_as_completed = self.as_completed
        self.range = None

    # ---- batches: the range over the input
    def S(self, k):
        r = self.range
        if r is None:
            raise Unsupported("no range over the batches")
        return r[0](zi(k))

    def nb(self):
        return self.range[1]

    def blen(self, k):
        rest = self.n - self.S(k)
        return z3.If(rest < self.size, rest, self.size)

    def find_range(self):
        for f, n, lo, hi, st in getattr(self.ex, "step_ranges", ()):
            if z3.simplify(zi(hi) - self.n).eq(z3.IntVal(0)) and zi(st).eq(self.size) and z3.simplify(zi(lo)).eq(z3.IntVal(0)):
                self.range = (f, n)
                return

    def is_batch(self, k, t, x):
        """Candidate facts: the part x of the k-th task's argument describes the k-th batch."""
        ex = self.ex
        q, c = z3.Int("q!bt"), z3.Int("c!bt")
        if t == TMat(2, "f"):
            s, vs = ex.unbox(t, x).d["s"], self.V
            yield "rows", zi(s[0][0]) == self.blen(k)
            yield "cols", zi(s[0][1]) == zi(vs[0][1])
            if vs[4] is not None:
                yield "data", forall(q, IMP(z3.And(0 <= q, q < self.blen(k)), s[4](q) == vs[4](self.S(k) + q)), s[4](q))
        elif t == TList(TM):
            s = ex.list_state(t, x)
            yield "mlen", zi(s[1]) == self.blen(k)
            yield "mdata", forall(q, IMP(z3.And(0 <= q, q < self.blen(k)), s[2](q) == self.M[2](self.S(k) + q)), s[2](q))
        elif t == TInt:
            yield "number", x == k
            yield "start", x == self.S(k)

    def step(self, k):
        """Definition of the running total and of the expected ids."""
        ex, p = self.ex, z3.Int("p!st")
        self.multiple(k)
        inside = z3.And(0 <= k, k < self.nb())
        ex.fact(IMP(inside, self.C(k + 1) == self.C(k) + z3.If(self.ok(k), self.blen(k), 0)))
        ex.fact(forall(p, IMP(z3.And(inside, self.ok(k), self.C(k) <= p, p < self.C(k) + self.blen(k)), self.E(p) == IDOF(self.S(k) + p - self.C(k))), self.E(p)))

    def gap(self, a, b):
        """Lemma: no successful batch between a and b, no ids between them."""
        w = F("between", I, I, I)(a, b)
        if self.byid is not None:
            self.ex.fact(F("seen", B, B)(z3.Select(self.byid, w)))       # only mentions the term
        self.ex.fact(IMP(z3.And(0 <= a, a <= b, b <= self.nb()), z3.Or(self.C(a) == self.C(b), z3.And(a <= w, w < b, self.ok(w)))))

    # ---- client
    def attr(self, ex, o, name, node):
        if name != "insert":
            raise Unsupported("client method " + name)
        return VPy(self.insert, "insert")

    def insert(self, ex, args, kw, node):
        if ex.pure:
            raise NeedFork()
        if self.cur is None:
            raise Unsupported("insert outside a task")
        d = dict(zip(("vectors", "metadata"), args), **kw)
        v, m = ex.unopt(d.get("vectors")), ex.unopt(d.get("metadata"))
        if not isinstance(v, VArr) or len(v.d["s"][0]) != 2 or not isinstance(m, VList):
            raise Unsupported("arguments of insert")
        k = self.cur
        s, l = v.d["s"], ex.lst(m)
        if l[0] == "c":
            l = ex.sym_list(l, TM)
        b = self.blen(k)
        r, q = ex.fresh("r", I), ex.fresh("q", I)
        ex.check("a batch has between one vector and the batch size", z3.And(1 <= zi(s[0][0]), zi(s[0][0]) <= self.size))
        ex.check("a task passes its batch of vectors", z3.And(zi(s[0][0]) == b, zi(s[0][1]) == zi(self.V[0][1]), IMP(z3.And(0 <= r, r < b, 0 <= q, q < zi(s[0][1])), zr(s[1](r, q)) == zr(self.V[1](self.S(k) + r, q)))))
        ex.check("a batch holds the metadata entries of its vectors", z3.And(zi(l[1]) == b, IMP(z3.And(0 <= r, r < b), l[2](r) == self.M[2](self.S(k) + r))))
        ex.set(self.o, "calls", self.o.d["calls"] + 1)
        if not ex.branch(self.ok(k)):
            raise PyRaise(VExc("Exception", ("insert failed",)))
        st = self.S(k)
        return VList(("s", b, lambda j: IDOF(st + zi(j)), TStr, None))

    # ---- executor
    def executor(self, args, kw, node):
        return self.g

    def pool_attr(self, ex, o, name, node):
        if name not in ("submit", "shutdown"):
            raise Unsupported("executor method " + name)
        return VPy(self.submit if name == "submit" else lambda ex, args, kw, node: None, name)

    def submit(self, ex, args, kw, node):
        if ex.pure:
            raise NeedFork()
        fn, a = args[0], tuple(args[1:])
        if kw or not isinstance(fn, VFunc) or not a or self.kept.get("node", fn.node) is not fn.node:
            raise Unsupported("submitted task")
        t = ex.type_of(a)
        if self.argt is not None and self.argt != t:
            raise Unsupported("tasks of different shapes")
        if self.range is None:
            self.find_range()
        self.argt = self.kept["type"] = t
        self.kept["node"] = fn.node
        b = ex.box(t, a)
        c = self.g.d["count"]
        f = F("future<%s>" % t.name, I, t.sort(), Obj)(c, b)
        ex.fact(z3.And(FIDX(f) == c, self.farg(f) == b))
        ex.set(self.g, "$futs", z3.Store(self.g.d["$futs"], c, f))
        ex.set(self.g, "count", z3.simplify(c + 1))
        return VOpaque(f, "Future")

    def farg(self, f):
        return F("future_arg<%s>" % self.argt.name, Obj, self.argt.sort())(f)

    def as_completed(self, args, kw, node):
        ex = self.ex
        if ex.pure:
            raise NeedFork()
        coll = ex.unopt(args[0])
        count, futs = self.g.d["count"], self.g.d["$futs"]
        if self.range is None:
            self.find_range()
        if z3.is_int_value(z3.simplify(count)) and z3.simplify(count).as_long() == 0 and self.range is None:
            raise Unsupported("no task")
        k, f = ex.fresh("k", I), ex.fresh("f", Obj)
        ex.check("one task for every batch", count == self.nb())
        ex.check("the outcome of every task is awaited", IMP(z3.And(0 <= k, k < count), zb(ex.contains(coll, VOpaque(z3.Select(futs, k), "Future")))))
        ex.check("only submitted tasks are awaited", IMP(zb(ex.contains(coll, VOpaque(f, "Future"))), z3.And(0 <= FIDX(f), FIDX(f) < count, z3.Select(futs, FIDX(f)) == f)))
        n = self.nb()
        ex.fact(count == n)
        perm, _ = ex.perm(n)
        D = z3.Function("done!" + str(perm), I, RNG)
        empty, x = z3.K(I, z3.BoolVal(False)), z3.Int("x!ac")
        ex.fact(z3.And(D(0) == empty, self.wok(empty) == 0, self.wbad(empty) == 0))
        rng = self.prefix
        ex.fact(D(n) == rng(n))         # every task completes
        self.D = D
        self.sums()

        def at(j):
            j = zi(j)
            p = z3.Select(perm, j)
            if not ex.pure:
                ex.fact(z3.And(0 <= p, p < n))
                ex.fact(z3.And(D(j + 1) == z3.Store(D(j), p, True), z3.Not(z3.Select(D(j), p))))
                ex.fact(self.plus(D(j), p))
            return VOpaque(z3.Select(futs, p), "Future")
        return VIter(n, at, kind="completed")

    def prefix(self, k):
        return F("below", I, RNG)(k)

    def plus(self, s, x):
        """Definition of the sums over sets of batches."""
        b = self.blen(x)
        t = z3.Store(s, x, True)
        return IMP(z3.Not(z3.Select(s, x)), z3.And(self.wok(t) == self.wok(s) + z3.If(self.ok(x), b, 0), self.wbad(t) == self.wbad(s) + z3.If(self.ok(x), 0, b)))

    def sums(self):
        """Lemmas by induction over the batches: sums over {0..n-1} are the running totals, and both make up the input."""
        ex, n = self.ex, self.nb()
        P, C = self.prefix, self.C
        k = ex.fresh("k", I)
        x = z3.Int("x!sm")
        empty = z3.K(I, z3.BoolVal(False))
        for g in (k, n):
            ex.fact(forall(x, IMP(0 <= g, z3.Select(P(g), x) == z3.And(0 <= x, x < g)), z3.Select(P(g), x)))
        ex.fact(z3.And(P(0) == empty, C(0) == 0))
        ex.fact(IMP(z3.And(0 <= k, k < n), z3.And(P(k + 1) == z3.Store(P(k), k, True), C(k + 1) == C(k) + z3.If(self.ok(k), self.blen(k), 0))))
        ex.fact(self.plus(P(k), k))
        self.multiple(k)
        done = lambda j: z3.If(j < n, self.S(j), self.n)
        st = lambda j: z3.And(self.wok(P(j)) == C(j), self.wok(P(j)) + self.wbad(P(j)) == done(j))
        ex.check("sums over the batches: base", st(z3.IntVal(0)))
        ex.check("sums over the batches: step", IMP(z3.And(0 <= k, k < n, st(k)), st(k + 1)))
        ex.fact(st(n))

    def multiple(self, k):
        f, n = self.range
        self.ex.fact(IMP(z3.And(0 <= k, k < n), z3.And(f(k + 1) == f(k) + self.size, f(k) < self.n, f(k) >= 0)))
        self.ex.fact(IMP(z3.And(0 <= k, k == n - 1), f(k + 1) >= self.n))

    def fut_attr(self, ex, o, name, node):
        if name != "result":
            raise Unsupported("future method " + name)
        return VPy(lambda ex, args, kw, node: self.result(o), name)

    def result(self, o):
        ex = self.ex
        if ex.pure:
            raise NeedFork()
        fn = None
        for fr in ex.frames:
            for v in fr.env.d.values():
                if isinstance(v, VFunc) and v.node is self.kept.get("node"):
                    fn = v
        if fn is None or self.argt is None:
            raise Unsupported("task function")
        k = FIDX(o.term)
        ex.check("a submitted task is awaited", z3.And(0 <= k, k < self.nb()))
        arg = ex.unbox(self.argt, self.farg(o.term))
        self.multiple(k)
        old, self.cur = self.cur, k
        calls = self.o.d["calls"]
        stamp, mark = Val.counter, len(ex.undo)
        try:
            return ex.call(fn, list(arg), {})
        finally:
            self.cur = old
            outer, e = set(), fn.env
            while e is not None:
                outer.add(id(e))
                e = e.outer
            for w in ex.undo[mark:]:
                if isinstance(w[0], Env):
                    if id(w[0]) in outer:
                        raise Unsupported("a task writes shared state: %r" % (w[:2],))
                elif isinstance(w[0], Val) and w[0].sid <= stamp and w[0] is not self.o and w[0] is not ex.st and w[1] != "version" and isinstance(w[1], str) and (w[1] == "s" and not isinstance(w[0], VArr) or not isinstance(w[0], (VArr, VList, VDict, VSet))):
                    raise Unsupported("a task writes shared state: %r" % (w[:2],))
            ex.check("a task inserts its batch exactly once", self.o.d["calls"] == calls + 1)


@unit("batch sums lemmas", "U04")
def lemmas_unit(ex):
    """Induction steps of the lemmas used by `gap` and the growth of the running totals (the bases are reflexivity)."""
    def thunk():
        setup(ex)
        n, size = ex.fresh("n", I), ex.fresh("size", I)
        ex.fact(z3.And(n >= 0, size >= 1))
        f = z3.Function("range", I, I)
        cl = Pool(ex, None, None, n, size, {})
        nb = ex.fresh("nb", I)
        cl.range = (f, nb)
        C = cl.C
        a, k, x = ex.fresh("a", I), ex.fresh("k", I), z3.Int("x!lm")
        ex.fact(z3.And(0 <= a, a <= k, k < nb))
        cl.multiple(k)
        ex.fact(C(k + 1) == C(k) + z3.If(cl.ok(k), cl.blen(k), 0))
        gap = lambda j: IMP(forall(x, IMP(z3.And(a <= x, x < j), z3.Not(cl.ok(x))), cl.ok(x)), C(a) == C(j))
        ex.check("the number of ids grows: step", C(k) <= C(k + 1))
        ex.check("without a successful batch no ids are added: step", IMP(gap(k), gap(k + 1)))
        reached(ex)
    ex.explore(thunk, "batch sums lemmas")


@unit("BatchManager.parallel_batch_insert", "U04")
def parallel_unit(ex):
    ex.linear_ranges = True
    kept = {}
    ex.HOUDINI_RL = 8000000

    def thunk():
        setup(ex)
        ex.step_ranges = []
        o, size = manager(ex)
        V = ex.fresh_mat(2, "f", "vectors")
        s = V.d["s"]
        n = zi(s[0][0])
        ex.fact(z3.And(n >= 0, zi(s[0][1]) >= 0))
        M = ex.havoc_value(TList(TM), "metadata")
        ms = ex.lst(M)
        ex.fact(zi(ms[1]) == n)
        cl = Pool(ex, s, ms, n, size, kept)
        stats = lambda k: ex.call(ex.getattr(o.d["_stats"], "get"), [k], {})
        j, k, f = z3.Int("j!pp"), z3.Int("k!pp"), z3.Const("f!pp", Obj)

        def pool(L):
            if L.i is None:
                return
            cl.find_range()
            if cl.range is None:
                return
            nb, g = cl.nb(), cl.g.d
            sp = z3.simplify
            same = lambda a, b: sp(zi(a) == zi(b)).eq(z3.BoolVal(True)) or L.it.kind != "completed" and ex.prove(zi(a) == zi(b))
            if same(L.n, nb):
                cl.multiple(L.i)
                # building the batches, submitting the tasks
                yield "count", g["count"] == L.i
                yield "idx", forall(k, IMP(z3.And(0 <= k, k < g["count"]), FIDX(z3.Select(g["$futs"], k)) == k), z3.Select(g["$futs"], k))
                recs = [(nm, st[3], st[2], st[1], [st[2](k)]) for nm, st, _ in ex.typed_lists(L) if isinstance(st[3], (TRec, TTup))]
                if cl.argt is not None:
                    fa = lambda k: cl.farg(z3.Select(g["$futs"], k))
                    recs.append(("arg", cl.argt, fa, g["count"], [z3.Select(g["$futs"], k)]))
                for nm, t, at, ln, pat in recs:
                    for q, (lt, x) in enumerate(leaves(ex, t, at(k))):
                        for w, c in cl.is_batch(k, lt, x):
                            yield "%s.%d:%s" % (nm, q, w), forall(k, IMP(z3.And(0 <= k, k < ln), c), *pat)
                        if isinstance(lt, TObj):
                            yield "%s.%d:fut" % (nm, q), forall(k, IMP(z3.And(0 <= k, k < ln), x == z3.Select(g["$futs"], k)), *pat)
                for nm, st, _ in ex.typed_lists(L):
                    if isinstance(st[3], TObj):
                        yield nm + ":futs", forall(k, IMP(z3.And(0 <= k, k < zi(st[1])), st[2](k) == z3.Select(g["$futs"], k)), st[2](k), z3.Select(g["$futs"], k))
                for nm, d in dicts(ex, L):
                    if d[3].sort() == Obj:
                        ff = z3.Select(g["$futs"], FIDX(f))
                        yield nm + ":futs", forall(f, z3.Select(d[1], f) == z3.And(0 <= FIDX(f), FIDX(f) < L.i, ff == f), z3.Select(d[1], f))
            x = stats("total_items")
            if isnum(x):
                yield "total", zi(x) == n
            if L.it.kind == "completed" and cl.D is not None:
                d = cl.D(L.i)
                for key, w in (("processed_items", cl.wok), ("failed_items", cl.wbad)):
                    x = stats(key)
                    if isnum(x):
                        yield key, zi(x) == w(d)
                        yield key + "0", zi(x) >= 0
                for nm, dd in dicts(ex, L):
                    if dd[3] == TInt and dd[4] == TList(TStr):
                        ls = ex.list_state(dd[4], z3.Select(dd[2], k))
                        has = z3.Select(dd[1], k)
                        yield nm + ":dom", forall(k, has == z3.And(z3.Select(d, k), cl.ok(k)), has)
                        yield nm + ":dom0", forall(k, IMP(has, z3.And(0 <= k, k < nb)), has)
                        yield nm + ":len", forall(k, IMP(has, zi(ls[1]) == cl.blen(k)), has)
                        yield nm + ":ids", forall([k, j], IMP(z3.And(has, 0 <= j, j < cl.blen(k)), ls[2](j) == IDOF(cl.S(k) + j)), ls[2](j))
                        cl.byid = dd[1]
            elif cl.D is not None:
                # collecting the ids in the order of the batches
                x = L.it.at(L.i)
                y = L.it.at(L.i + 1)
                if isnum(x):
                    x, y = zi(x), zi(y)
                    pos = z3.If(L.i < zi(L.n), x, nb)
                    nxt = z3.If(L.i + 1 < zi(L.n), y, nb)
                    first = z3.If(zi(L.n) > 0, zi(L.it.at(z3.IntVal(0))), nb)
                    cl.gap(z3.IntVal(0), first)
                    cl.gap(x + 1, nxt)
                    cl.step(x)
                    for nm, st, _ in ex.typed_lists(L):
                        if st[3] == TStr:
                            yield nm + ":len", zi(st[1]) == cl.C(pos)
                            yield nm + ":ids", forall(j, IMP(z3.And(0 <= j, j < zi(st[1])), st[2](j) == cl.E(j)), st[2](j))
        ex.loop_pools = [pool]
        r = call(ex, o, "parallel_batch_insert", cl.o, V, M, ex.fresh("show_progress", B))
        if r[0] == "exc":
            unexpected(ex, r)
        res = r[1]
        if not isinstance(res, VList):
            ex.check("the result is a list of ids", False)
            return
        if cl.D is None:
            raise Unsupported("tasks are not awaited with as_completed")
        nb = cl.nb()
        sa = ex.lst(res)
        ex.check("as many ids as vectors of successful batches", zi(ex.list_len(res)) == cl.C(nb))
        b, q = ex.fresh("b", I), ex.fresh("q", I)
        if sa[0] == "s":
            p = cl.C(b) + q
            ex.fact(IMP(z3.And(0 <= b, b < nb), z3.And(cl.C(b) >= 0, cl.C(b + 1) <= cl.C(nb))))        # running totals of lengths grow
            cl.step(b)
            cl.multiple(b)
            ex.check("the ids of the successful batches in input order", IMP(z3.And(0 <= b, b < nb, cl.ok(b), 0 <= q, q < cl.blen(b)), sa[2](p) == IDOF(cl.S(b) + q)))
        g = call(ex, o, "get_stats")
        if g[0] == "exc":
            unexpected(ex, g, "in get_stats")
        d = ex.dct(g[1])[1]
        full = cl.prefix(nb)
        for key, w in (("total_items", n), ("processed_items", cl.wok(full)), ("failed_items", cl.wbad(full))):
            v = d.get(key)
            ex.check("the statistics report this run's %s" % key, zi(v) == w if isnum(v) else False)
        ex.check("processed and failed make the total", cl.wok(full) + cl.wbad(full) == n)
        reached(ex)
    ex.explore(thunk, "parallel_batch_insert")


def dicts(ex, L):
    out, done = [], set()
    for cell, t in L.info.mods.items():
        v = Val.registry[cell[0]]
        if not (cell[1] == "s" and isinstance(v, VDict)):
            v = v.d.get(cell[1]) if isinstance(v, Val) else None
        if not isinstance(v, VDict) or v.sid in done:
            continue
        done.add(v.sid)
        s = ex.dct(v)
        if s[0] == "c":
            if not isinstance(t, TDict) or not ex.complete(t) or s[1]:
                continue
            s = ex.sym_dict(v, t.k, t.v)
        out.append(("D%d" % v.sid, s))
    return out
