"""Builtins, container and string methods, paths and files."""
from .loops import *


def _opt(kw, args, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


class LibMixin:
    # ------------------------------------------------------------- library calls
    def call_lib(self, name, args, kw, node=None):
        h = self.lib.get(name)
        if name.startswith("numpy.") and (kw.get("out") is not None or kw.get("where") is not None and name != "numpy.where"):
            raise Unsupported("%s with an output argument" % name)
        if h is None and name.startswith("builtins."):
            ex = getattr(builtins, name[9:], None)
            if isinstance(ex, type) and issubclass(ex, BaseException):
                return VExc(name[9:], tuple(args))
        if h is None:
            short = name.split(".")[-1]
            m = getattr(self, "lib_" + name.replace(".", "_"), None)
            if m is None:
                if short in ("debug", "info", "warning", "error", "exception", "critical", "warn"):
                    return None
                raise Unsupported("library call %s (line %s)" % (name, getattr(node, "lineno", "?")))
            return m(args, kw, node)
        return h(self, args, kw, node)

    lib = {}

    # ---- builtins
    def lib_builtins_len(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, VList):
            return self.list_len(v)
        if isinstance(v, VDict):
            return self.dict_len(v)
        if isinstance(v, VSet):
            s = self.sset(v)
            return len(s[1]) if s[0] == "c" and len(s[1]) < 2 else self.card(self.sym_set(v)[1])
        if is_sort(v, Str):
            self.fact(slen(v) >= 0)
            return slen(v)
        if isinstance(v, VArr):
            return v.d["s"][0][0]
        if isinstance(v, VIter):
            return v.len
        if isinstance(v, VMeta):
            n = F("meta_len", MetaV, I)(self.meta_val(v))
            self.fact(n >= 0)
            return n
        if v is None or isnum(v):
            self.implicit_raise("TypeError", "object has no len()", node)
        if isinstance(v, VOpaque):
            h = getattr(self, "opaque_len", None)
            n = F("len_" + v.kind, Obj, I)(v.term)
            self.fact(n >= 0)
            return n
        if isinstance(v, VConf):
            return self.fresh("conflen", I)
        raise Unsupported("len of %s" % type(v).__name__)

    def lib_builtins_range(self, args, kw, node):
        a = [self.unopt(x, node) for x in args]
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        for x in (lo, hi, step):
            if not (isinstance(x, int) or is_sort(x, I) or is_sort(x, B)):
                self.implicit_raise("TypeError", "range", node)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            r = range(lo, hi, step)
            return VIter(len(r), lambda j: r[j] if isinstance(j, int) else z3.simplify(lo + step * j), kind="range", info=(lo, hi, step))
        lo, hi = zi(lo), zi(hi)
        if not (isinstance(step, int) and step > 0):
            st = zi(step)
            self.need(st != 0, "ValueError", node)
            if not self.branch(st > 0):
                n = self.fresh("rlen", I)
                self.fact(z3.If(lo > hi, z3.And(n >= 1, lo + (n - 1) * st > hi, lo + n * st <= hi), n == 0))
                return VIter(n, lambda j: lo + st * zi(j), kind="range", info=(lo, hi, st))
            if getattr(self, "linear_ranges", False):
                return self.step_range(lo, hi, st)
            n = self.fresh("rlen", I)
            self.fact(z3.If(hi > lo, z3.And(n >= 1, lo + (n - 1) * st < hi, lo + n * st >= hi), n == 0))
            return VIter(n, lambda j: lo + st * zi(j), kind="range", info=(lo, hi, st))
        d = z3.simplify(hi - lo)
        n = z3.If(d > 0, (d + (step - 1)) / step if step != 1 else d, z3.IntVal(0))
        n2 = self.fresh("rlen", I)
        self.fact(n2 == n)
        if step != 1:
            self.fact(z3.If(d > 0, z3.And(n2 >= 1, (n2 - 1) * step < d, n2 * step >= d), n2 == 0))
        else:
            self.fact(n2 >= 0)
        return VIter(n2, lambda j: z3.simplify(lo + step * zi(j)), kind="range", info=(lo, hi, step))

    def step_range(self, lo, hi, st):
        """range(lo, hi, st), st > 0 symbolic, without products: f(j) = lo + st * j is known by its recurrence."""
        n = self.fresh("rlen", I)
        f = z3.Function("rstep!" + str(n), I, I)
        if getattr(self, "step_ranges", None) is not None:
            self.step_ranges.append((f, n, lo, hi, st))
        j = z3.Int("j!rs")
        self.fact(z3.And(n >= 0, f(0) == lo, (n > 0) == (hi > lo), IMP(n > 0, z3.And(f(n - 1) < hi, f(n) >= hi, f(n) == f(n - 1) + st))))
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(lo <= f(j), f(j) < hi)), f(j)))
        zero = z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0

        def at(k):
            k = zi(k)
            t = f(k)
            if not self.pure:
                self.fact(z3.And(f(k + 1) == t + st, f(k - 1) == t - st))
            if zero:
                self.multiples = {**getattr(self, "multiples", {}), t.get_id(): (t, k, st)}
            return t
        return VIter(n, at, kind="range", info=(lo, hi, st))

    def lib_builtins_enumerate(self, args, kw, node):
        it = self.to_iter(args[0], node)
        start = _opt(kw, args, 1, "start", 0)
        def at(j):
            x = it.at(j)
            k = j if isinstance(start, int) and start == 0 else (start + j if isinstance(j, int) and isinstance(start, int) else z3.simplify(zi(start) + zi(j)))
            return (k, x)
        return VIter(it.len, at, src=it.src, kind="enumerate")

    def lib_builtins_zip(self, args, kw, node):
        its = [self.to_iter(a, node) for a in args]
        n = its[0].len
        for it in its[1:]:
            if isinstance(n, int) and isinstance(it.len, int):
                n = min(n, it.len)
            elif not (is_z3(n) and is_z3(it.len) and n.eq(it.len)):
                m = self.fresh("zlen", I)
                self.fact(m == z3.If(zi(n) < zi(it.len), zi(n), zi(it.len)))
                n = m
        return VIter(n, lambda j: tuple(it.at(j) for it in its), src=next((it.src for it in its if it.src), None), kind="zip")

    def lib_builtins_reversed(self, args, kw, node):
        it = self.to_iter(args[0], node)
        if isinstance(it.len, int):
            return VIter(it.len, lambda j: it.at(it.len - 1 - j if isinstance(j, int) else it.len - 1 - j), src=it.src)
        return VIter(it.len, lambda j: it.at(z3.simplify(it.len - 1 - zi(j))), src=it.src)

    def lib_builtins_list(self, args, kw, node):
        if not args:
            return VList(("c", []))
        v = self.unopt(args[0], node)
        if isinstance(v, VList):
            s = self.lst(v)
            return VList(("c", list(s[1])) if s[0] == "c" else s)
        if isinstance(v, VDict):
            return self.dict_keys(v)
        return self.iter_to_list(self.to_iter(v, node))

    def lib_builtins_tuple(self, args, kw, node):
        if not args:
            return ()
        v = self.unopt(args[0], node)
        it = self.to_iter(v, node)
        if isinstance(it.len, int):
            return tuple(it.at(j) for j in range(it.len))
        return self.iter_to_list(it)

    def lib_builtins_set(self, args, kw, node):
        if not args:
            return VSet(("c", []))
        v = self.unopt(args[0], node)
        if isinstance(v, VSet):
            return VSet(self.sset(v))
        if isinstance(v, VDict):
            s = self.dct(v)
            return VSet(("c", list(s[1]))) if s[0] == "c" else VSet(("s", s[1], s[3]))
        return self.list_to_set(self.iter_to_list(self.to_iter(v, node)))

    lib_builtins_frozenset = lib_builtins_set

    def list_to_set(self, v):
        s = self.lst(v)
        if s[0] == "c":
            if len(s[1]) <= 1 or all(isinstance(x, (str, int)) for x in s[1]):
                out = []
                for x in s[1]:
                    if x not in out:
                        out.append(x)
                return VSet(("c", out))
            s = self.sym_list(s)
        t = s[3]
        dom = self.fresh("sdom", z3.ArraySort(t.sort(), B))
        j, k = z3.Int("j!ls"), z3.Const("k!ls", t.sort())
        w = self.fresh("sidx", z3.ArraySort(t.sort(), I))
        n, at = s[1], s[2]
        aj = at(j)
        pats = self.pattern_for(aj, j)
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.Select(dom, aj)), *pats))
        wk = z3.Select(w, k)
        self.fact(forall(k, IMP(z3.Select(dom, k), z3.And(0 <= wk, wk < n, at(wk) == k)), z3.Select(dom, k)))
        self.dom_facts(dom)
        c = self.card(dom)
        self.fact(c <= n)
        i = z3.Int("i!ls")
        # all distinct <-> as many elements as positions
        self.fact((c == n) == z3.ForAll([i, j], IMP(z3.And(0 <= i, i < j, j < n), at(i) != at(j))))
        return VSet(("s", dom, t))

    def pairs_to_dict(self, v):
        s = self.lst(v)
        if s[0] == "c":
            d = VDict(("c", {}))
            for kx, x in s[1]:
                self.dict_set(d, kx, x)
            return d
        t = s[3]
        kt, vt = t.ts
        n, at = s[1], s[2]
        dom = self.fresh("ddom", z3.ArraySort(kt.sort(), B))
        mp = self.fresh("dmap", z3.ArraySort(kt.sort(), vt.sort()))
        w = self.fresh("didx", z3.ArraySort(kt.sort(), I))
        j, k = z3.Int("j!pd"), z3.Const("k!pd", kt.sort())
        kj = self.acc(t, 0, at(j))
        kj = z3.simplify(kj)
        pats = self.pattern_for(kj, j)
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(z3.Select(dom, kj), z3.Select(w, kj) >= j)), *pats))
        wk = z3.Select(w, k)
        self.fact(forall(k, IMP(z3.Select(dom, k), z3.And(0 <= wk, wk < n, self.acc(t, 0, at(wk)) == k,
                                                          z3.Select(mp, k) == self.acc(t, 1, at(wk)))), z3.Select(dom, k)))
        self.dom_facts(dom)
        return VDict(("s", dom, mp, kt, vt))

    def lib_builtins_dict(self, args, kw, node):
        d = VDict(("c", {}))
        if args:
            v = self.unopt(args[0], node)
            if not kw and isinstance(v, (VConf, VMeta)):
                return self.copy_of(v, node)
            if isinstance(v, (VDict, VConf, VMeta)):
                self.dict_update(d, v)
            else:
                d = self.pairs_to_dict(self.iter_to_list(self.to_iter(v, node)))
        for k, x in kw.items():
            self.dict_set(d, k, x)
        return d

    def copy_of(self, v, node=None):
        """A new object with the same contents."""
        return self.arr_method(v, "copy", [], {}, node) if isinstance(v, VArr) else self.call_method(v, "copy", [], {}, node)

    def lib_copy_copy(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, (VMeta, VConf, VArr)):
            return self.copy_of(v, node)
        raise Unsupported("copy of %s" % type(v).__name__)

    lib_copy_deepcopy = lib_copy_copy

    def dict_update(self, d, o):
        o = self.unopt(o)
        if isinstance(o, VDict):
            s = self.dct(o)
            if s[0] == "c":
                for k, x in s[1].items():
                    self.dict_set(d, k, x)
                return
            ds = self.dct(d)
            if ds[0] == "c" and not ds[1]:
                self.write(d, s)
                return
            ds = self.sym_dict(d, s[3], s[4])
            dom = self.fresh("udom", ds[1].sort())
            mp = self.fresh("umap", ds[2].sort())
            k = z3.Const("k!up", ds[3].sort())
            self.fact(forall(k, z3.Select(dom, k) == z3.Or(z3.Select(ds[1], k), z3.Select(s[1], k)), z3.Select(dom, k)))
            self.fact(forall(k, z3.Select(mp, k) == z3.If(z3.Select(s[1], k), z3.Select(s[2], k), z3.Select(ds[2], k)), z3.Select(mp, k)))
            self.dom_facts(dom)
            self.write(d, ("s", dom, mp, ds[3], ds[4]))
            return
        raise Unsupported("dict update from %s" % type(o).__name__)

    def lib_builtins_int(self, args, kw, node):
        v = self.unopt(args[0], node) if args else 0
        if isinstance(v, VArr) and not v.d["s"][0]:
            v = v.d["s"][1]()
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, (Fraction, float)):
            return int(v)
        if is_sort(v, I):
            return v
        if is_sort(v, B):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_sort(v, R):
            if z3.is_to_real(v):
                return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isstr(v):
            return self.str_to_int(v, node)
        raise Unsupported("int()")

    def str_to_int(self, v, node):
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                return self.implicit_raise("ValueError", "", node)
        self.need(F("is_int_str", Str, B)(v), "ValueError", node)
        return F("str2int_", Str, I)(v)

    def digest(self, args, kw, node):
        """A digest object; digests of different contents differ (trusted)."""
        if not args:
            raise Unsupported("incremental digest")
        b = self.unopt(args[0])
        if not isinstance(b, VOpaque):
            raise Unsupported("digest of %s" % type(b).__name__)
        x = z3.Const("b!dg", Obj)
        h = F("digest_hex", Obj, Str)
        self.raw_fact(forall(x, F("digest_inv", Str, Obj)(h(x)) == x, h(x)))
        return VOpaque(b.term, "digest")

    lib_hashlib_md5 = lib_hashlib_sha1 = lib_hashlib_sha256 = lib_hashlib_blake2b = digest

    def lib_tempfile_mkstemp(self, args, kw, node):
        if self.pure:
            raise NeedFork()
        p = self.fresh("tmpfile", Str)
        self.fact(slen(p) > 0)
        return (self.fresh("fd", I), p)

    def lib_os_path_exists(self, args, kw, node):
        if "fexists" in self.st.d:
            raise Unsupported("os.path.exists on a modelled file system")
        return self.fresh("exists", B)

    def lib_os_unlink(self, args, kw, node):
        if "fexists" in self.st.d:
            raise Unsupported("os.unlink on a modelled file system")
        return None

    def lib_os_close(self, args, kw, node):
        return None

    def lib_builtins_float(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, VArr) and not v.d["s"][0]:
            v = v.d["s"][1]()
        if isinstance(v, str):
            return float(v)
        if isnum(v):
            return zr(v) if is_z3(v) else v
        if isstr(v):
            raise Unsupported("float(str)")
        raise Unsupported("float()")

    def lib_builtins_bool(self, args, kw, node):
        return self.truth(args[0]) if args else False

    def lib_builtins_str(self, args, kw, node):
        return self.to_str(self.unopt(args[0], node)) if args else ""

    def lib_builtins_repr(self, args, kw, node):
        return self.fresh("repr", Str)

    def lib_builtins_abs(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, VArr):
            return self.arr_map(lambda x: z3.If(x >= 0, x, -x), v, op="abs")
        if not is_z3(v):
            return abs(v)
        return z3.If(v >= 0, v, -v)

    def lib_builtins_round(self, args, kw, node):
        return self.fresh("round", R if len(args) > 1 else I)

    def minmax(self, args, kw, node, lt):
        if len(args) == 1:
            it = self.to_iter(args[0], node)
            if isinstance(it.len, int):
                vals = [it.at(j) for j in range(it.len)]
                if not vals:
                    if "default" in kw:
                        return kw["default"]
                    return self.implicit_raise("ValueError", "empty", node)
                if "key" not in kw:
                    return self.minmax_vals(vals, lt)
            return self.minmax_iter(it, kw, node, lt)
        return self.minmax_vals([self.unopt(a, node) for a in args], lt)

    def minmax_vals(self, vals, lt):
        if all(not is_z3(v) for v in vals):
            return min(vals) if lt else max(vals)
        r = vals[0]
        real = any(is_sort(v, R) or isinstance(v, (float, Fraction)) for v in vals)
        for v in vals[1:]:
            a, b = (zr(r), zr(v)) if real else (zi(r), zi(v))
            r = z3.If(b < a, b, a) if lt else z3.If(b > a, b, a)
        return r

    def minmax_iter(self, it, kw, node, lt, keys=None):
        outer = len(self.pure)
        """First element attaining the extreme key."""
        n = zi(it.len)
        if keys is not None:
            pass
        elif "default" in kw:
            if not self.branch(n > 0):
                return kw["default"]
        else:
            self.need(n > 0, "ValueError", node)
        key = kw.get("key")
        m = self.mark()

        def kf(j):
            if keys is not None:
                v = self.list_get(keys, j)
            else:
                x = it.at(j)
                v = self.call(key, [x], {}) if key is not None else x
            v = self.unopt(v)
            if not isnum(v):
                raise Unsupported("min/max of non-numbers")
            return zr(v) if is_sort(v, R) else zi(v)
        p = self.fresh("ext", I)
        self.fact(z3.And(0 <= p, p < n))
        j = z3.Int("j!mm%d" % self.nf)
        self.pure.append({"vars": [j], "guards": [z3.And(0 <= j, j < n)]})
        try:
            kj = kf(j)
        except NeedFork:
            if outer or key is None or keys is not None:
                raise Unsupported("min/max key needs case split")
            self.pure.pop()
            self.rollback(m)
            return self.minmax_iter(it, kw, node, lt, self.map_loop(key, it, node))
        finally:
            if len(self.pure) > outer:
                self.pure.pop()
        kp = z3.substitute(kj, (j, p))
        pats = self.pattern_for(kj, j)
        body = IMP(z3.And(0 <= j, j < n), z3.And(kp <= kj if lt else kp >= kj, IMP(j < p, kp < kj if lt else kp > kj)))
        self.fact(forall(j, body, *pats))
        return it.at(p)

    def lib_builtins_min(self, args, kw, node):
        return self.minmax(args, kw, node, True)

    def lib_builtins_max(self, args, kw, node):
        return self.minmax(args, kw, node, False)

    def lib_builtins_sum(self, args, kw, node):
        it = self.to_iter(args[0], node)
        if isinstance(it.len, int):
            r = _opt(kw, args, 1, "start", 0)
            for j in range(it.len):
                r = self.binop("+", r, it.at(j), node)
            return r
        return self.symbolic_sum(self.iter_to_list(it), node)

    def symbolic_sum(self, v, node=None):
        """Sum of a symbolic list as a prefix-sum function of its contents."""
        s = self.lst(v)
        s = self.sym_list(s)
        t = s[3]
        if t == TBool:
            at0 = s[2]
            s = ("s", s[1], lambda j: z3.If(at0(j), z3.IntVal(1), z3.IntVal(0)), TInt, None)
            t = TInt
        if t not in (TInt, TReal):
            raise Unsupported("sum of non-numbers")
        arr = self.list_array(s)
        ps = F("psum_" + t.name, arr.sort(), I, t.sort())
        self.psum_axioms(t)
        return ps(arr, zi(s[1]))

    def psum_axioms(self, t):
        if ("mem", "psum" + t.name) in self.st.d:
            return
        self.set(self.st, ("mem", "psum" + t.name), True)
        S = z3.ArraySort(I, t.sort())
        ps = F("psum_" + t.name, S, I, t.sort())
        a, n, j, x = z3.Const("a", S), z3.Int("n"), z3.Int("j"), z3.Const("x", t.sort())
        zero = z3.IntVal(0) if t == TInt else z3.RealVal(0)
        self.raw_fact(forall([a, n], IMP(n <= 0, ps(a, n) == zero), ps(a, n)))
        self.raw_fact(forall([a, n], IMP(n > 0, ps(a, n) == ps(a, n - 1) + z3.Select(a, n - 1)), ps(a, n)))
        st = z3.Store(a, j, x)
        self.raw_fact(forall([a, n, j, x], ps(st, n) == ps(a, n) + z3.If(z3.And(0 <= j, j < n), x - z3.Select(a, j), zero), ps(st, n)))

    def lib_builtins_any(self, args, kw, node):
        it = self.to_iter(args[0], node)
        if isinstance(it.len, int):
            return OR(*[self.truth(it.at(j)) for j in range(it.len)])
        self.nf += 1
        j = z3.Int("j!any%d" % self.nf)
        b = self.pure_truth(it, j)
        return z3.Exists([j], z3.And(0 <= j, j < zi(it.len), b))

    def lib_builtins_all(self, args, kw, node):
        it = self.to_iter(args[0], node)
        if isinstance(it.len, int):
            return AND(*[self.truth(it.at(j)) for j in range(it.len)])
        self.nf += 1
        j = z3.Int("j!all%d" % self.nf)
        b = self.pure_truth(it, j)
        return z3.ForAll([j], IMP(z3.And(0 <= j, j < zi(it.len)), b))

    def pure_truth(self, it, j):
        self.pure.append({"vars": [j], "guards": [z3.And(0 <= j, j < zi(it.len))]})
        try:
            return zb(self.truth(it.at(j)))
        finally:
            self.pure.pop()

    def lib_builtins_iter(self, args, kw, node):
        return self.to_iter(args[0], node)

    def lib_builtins_next(self, args, kw, node):
        v = args[0]
        it = v if isinstance(v, VIter) else self.to_iter(v, node)
        if len(args) > 1:
            if not self.branch(zi(it.len) > 0):
                return args[1]
        else:
            self.need(zi(it.len) > 0 if is_z3(it.len) else it.len > 0, "StopIteration", node)
        return it.at(0)

    def lib_builtins_sorted(self, args, kw, node):
        v = self.iter_to_list(self.to_iter(args[0], node))
        r = VList(self.lst(v))
        self.list_sort(r, kw.get("key"), kw.get("reverse", False), node)
        return r

    def list_sort(self, v, key, reverse, node):
        m = self.mark()
        try:
            return self.list_sort_by(v, key, reverse, node)
        except NeedFork:
            if self.pure or key is None:
                raise Unsupported("sort key needs case split")
            self.rollback(m)
        keys = self.map_loop(key, self.to_iter(v, node), node)
        self.list_sort_by(v, key, reverse, node, keys)

    def map_loop(self, fn, it, node):
        """[fn(x) for x in it] run as a loop."""
        loop = getattr(node, "_key_loop", None)
        pos = dict(lineno=getattr(node, "lineno", 0), col_offset=getattr(node, "col_offset", 0) * 10 + 9)
        name = lambda s: ast.Name(s, ast.Load(), **pos)
        if loop is None:
            call = ast.Call(name(".key"), [name(".x")], [], **pos)
            body = ast.Expr(ast.Call(ast.Attribute(name(".comp"), "append", ast.Load(), **pos), [call], [], **pos), **pos)
            loop = node._key_loop = ast.For(ast.Name(".x", ast.Store(), **pos), name(".it"), [body], [], **pos)
        fr = self.frame
        env = Env(fr.env)
        self.frames.append(Frame(env, fr.mod, fr.cls, fr.fn, fr.self_val))
        self.frames[-1].nonlocals = set()
        try:
            out = VList(("c", []))
            env.d[".comp"], env.d[".key"] = out, fn
            if isinstance(it.len, int) and it.len <= self.UNROLL:
                return VList(("c", [self.call(fn, [it.at(j)], {}, node) for j in range(it.len)]))
            self.sym_loop(loop, it)
            return out
        finally:
            self.frames.pop()

    def list_sort_by(self, v, key, reverse, node, keys=None):
        s = self.lst(v)
        if s[0] == "c" and len(s[1]) <= 1:
            return
        if s[0] == "c" and key is None and all(isinstance(x, (int, str)) for x in s[1]):
            self.write(v, ("c", sorted(s[1], reverse=bool(reverse))))
            return
        s = self.sym_list(s)
        n = s[1]
        at = s[2]
        perm, inv = self.perm(n, at)
        j = z3.Int("j!so")
        d = self.fresh("sorted", z3.ArraySort(I, s[3].sort()))
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.Select(d, j) == at(z3.Select(perm, j))), z3.Select(d, j), z3.Select(perm, j)))
        tmp = VList(("s", n, self.sel(d), s[3], d))
        self.nf += 1
        a = z3.Int("a!so%d" % self.nf)
        self.pure.append({"vars": [a], "guards": [z3.And(0 <= a, a < n)]})
        try:
            x = self.unbox(s[3], z3.Select(d, a))
            if keys is not None:
                k = self.unopt(self.list_get(keys, z3.Select(perm, a)))
            else:
                k = self.unopt(self.call(key, [x], {}) if key is not None else x)
        finally:
            self.pure.pop()
        b = z3.Int("b!so")
        ks = list(k) if isinstance(k, tuple) else [k]
        ks = [self.order_key(y) for y in ks]
        sub = lambda e: z3.substitute(e, (a, b))
        rng = z3.And(0 <= a, a < b, b < n)
        rev = bool(reverse) if not is_z3(reverse) else reverse
        if is_z3(rev):
            rev = self.branch(rev)
        le = self.lex_le([sub(y) for y in ks], ks) if rev else self.lex_le(ks, [sub(y) for y in ks])
        self.fact(forall([a, b], IMP(rng, le), (z3.Select(d, a), z3.Select(d, b))))
        # stability
        tie = AND(*[y == sub(y) for y in ks])
        self.fact(forall([a, b], IMP(z3.And(rng, tie), z3.Select(perm, a) < z3.Select(perm, b)), (z3.Select(d, a), z3.Select(d, b))))
        if self.on_sort is not None and not self.pure:
            self.on_sort(self, at, self.sel(d), self.sel(inv), n, s[3])
        self.bump(v)
        self.write(v, ("s", n, self.sel(d), s[3], d))

    on_sort = None          # a contract may derive facts from a sort (elements before, after, inverse permutation)

    def order_key(self, y):
        y = self.unopt(y)
        if isinstance(y, (int, bool)):
            return zi(y)
        if isinstance(y, (float, Fraction)):
            return zr(y)
        if is_z3(y) and y.sort() in (I, R):
            return y
        if is_sort(y, B):
            return z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if isstr(y):
            return F("str_ord", Str, R)(self.S(y))
        if is_sort(y, PathS):
            return F("path_ord", PathS, R)(y)
        raise Unsupported("sort key type")

    def lex_le(self, a, b):
        if len(a) == 1:
            return a[0] <= b[0]
        return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], self.lex_le(a[1:], b[1:])))

    def minimal_terms(self, e, j):
        """Smallest applications over j inside e (triggers that speak about the j-th element)."""
        st, out, seen = [e] if is_z3(e) else [], [], set()
        while st:
            x = st.pop()
            if not z3.is_app(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if (z3.is_select(x) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED) and any(a.eq(j) for a in x.children()):
                out.append(x)
            st.extend(x.children())
        return out

    def perm(self, n, elem=None):
        """Arbitrary permutation of 0..n-1 with its inverse."""
        p, q = self.fresh("perm", z3.ArraySort(I, I)), self.fresh("pinv", z3.ArraySort(I, I))
        j = z3.Int("j!pm")
        pj, qj = z3.Select(p, j), z3.Select(q, j)
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(0 <= pj, pj < n, z3.Select(q, pj) == j)), pj))
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(0 <= qj, qj < n, z3.Select(p, qj) == j)), qj, *(self.minimal_terms(elem(j), j) if elem else [])))
        return p, q

    def lib_builtins_isinstance(self, args, kw, node):
        v, t = args
        ts = t if isinstance(t, tuple) else (t,)
        return OR(*[self.isinst(v, x, node) for x in ts])

    def isinst(self, v, t, node):
        if isinstance(v, VOpt):
            if v.isnone is True:
                return self.isinst(None, t, node)
            return OR(AND(v.isnone, self.isinst(None, t, node)), AND(NOT(v.isnone), self.isinst(v.value, t, node)))
        if isinstance(t, ClassInfo):
            if isinstance(v, VObj) and isinstance(v.cls, ClassInfo):
                return v.cls.is_sub(t)
            if isinstance(v, VObj) and isinstance(v.cls, str):
                return v.cls == t.name or v.cls in ("Storage",) and t.name == "StorageBackend"
            if isinstance(v, VOpaque):
                return F("isinst_" + t.name, Obj, B)(v.term)
            return False
        if isinstance(t, VOpaque) and isinstance(v, VOpaque):
            return F("isinst_of", Obj, Obj, B)(v.term, t.term)
        n = t.name.split(".")[-1] if isinstance(t, VLib) else "?"
        if isinstance(v, VOpaque) and v.kind == "PyAny":
            return F("isinst_" + n, Obj, B)(v.term)
        table = {
            "str": isstr(v), "int": isinstance(v, (int, bool)) or is_sort(v, I) or is_sort(v, B), "bool": isinstance(v, bool) or is_sort(v, B),
            "float": isinstance(v, (float, Fraction)) or is_sort(v, R), "list": isinstance(v, VList), "dict": isinstance(v, (VDict, VMeta, VConf)),
            "tuple": isinstance(v, tuple), "set": isinstance(v, VSet), "ndarray": isinstance(v, VArr), "Path": is_sort(v, PathS),
            "NoneType": v is None, "integer": False, "floating": False, "number": False, "bytes": isinstance(v, VOpaque) and v.kind == "bytes",
            "Mapping": isinstance(v, (VDict, VMeta)), "Sequence": isinstance(v, (VList, tuple)),
        }
        if n in table:
            return table[n]
        raise Unsupported("isinstance(..., %s)" % n)

    def lib_builtins_hasattr(self, args, kw, node):
        v, n = args
        if isinstance(v, VObj) and isinstance(n, str):
            if n in v.d:
                return True
            if isinstance(v.cls, ClassInfo):
                return v.cls.find(n)[0] is not None or v.cls.find_attr(n)[0] is not None
        if isinstance(v, VOpaque):
            return F("hasattr_" + str(n), Obj, B)(v.term)
        raise Unsupported("hasattr")

    def lib_builtins_getattr(self, args, kw, node):
        if isinstance(args[1], str):
            if len(args) > 2:
                if not self.branch(self.lib_builtins_hasattr(args[:2], {}, node)):
                    return args[2]
            return self.getattr(args[0], args[1], node)
        raise Unsupported("getattr")

    def lib_builtins_type(self, args, kw, node):
        v = args[0]
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, VExc):
            return v.cls if isinstance(v.cls, ClassInfo) else VLib("builtins." + v.cls)
        return VOpaque(self.fresh("type", Obj), "type")

    def lib_builtins_print(self, args, kw, node):
        return None

    def lib_builtins_id(self, args, kw, node):
        return self.fresh("id", I)

    def lib_builtins_ord(self, args, kw, node):
        r = F("ord", Str, I)(self.S(args[0]))
        return r

    def lib_builtins_hash(self, args, kw, node):
        v = args[0]
        t = self.type_of(v)
        return F("hash_" + t.name, t.sort(), I)(self.box(t, v))

    def lib_builtins_map(self, args, kw, node):
        it = self.to_iter(args[1], node)
        return VIter(it.len, lambda j: self.call(args[0], [it.at(j)], {}, node), src=it.src)

    def lib_builtins_callable(self, args, kw, node):
        return isinstance(args[0], (VFunc, VPy, VLib, ClassInfo, VMethod))

    def lib_uuid_uuid4(self, args, kw, node):
        return VOpaque(self.fresh_uuid(), "uuid")

    def fresh_uuid(self):
        return self.fresh("uuid", Obj)

    def lib_threading_RLock(self, args, kw, node):
        return VCtx(None, "lock")

    lib_threading_Lock = lib_threading_RLock

    def lib_time_time(self, args, kw, node):
        return self.fresh("time", R)

    lib_time_perf_counter = lib_time_time

    def lib_logging_getLogger(self, args, kw, node):
        return VCtx(None, "logger")

    def lib_collections_defaultdict(self, args, kw, node):
        f = args[0] if args else None
        t = getattr(self, "defaultdict_type", None)
        if t is not None:       # element types declared by the contract of the class
            return VDict(("s", self.empty_dom(t.k.sort()), z3.Const("nomap_" + t.name, z3.ArraySort(t.k.sort(), t.v.sort())), t.k, t.v),
                         default=(lambda: self.call(f, [], {}, node)) if f is not None else None)
        return VDict(("c", {}), default=(lambda: self.call(f, [], {}, node)) if f is not None else None)

    def lib_random_random(self, args, kw, node):
        r = self.fresh("rand", R)
        self.fact(z3.And(r >= 0, r < 1))
        return r

    def lib_random_randint(self, args, kw, node):
        r = self.fresh("rand", I)
        self.fact(z3.And(r >= zi(args[0]), r <= zi(args[1])))
        return r

    def lib_random_choice(self, args, kw, node):
        it = self.to_iter(args[0], node)
        self.need(zi(it.len) > 0, "IndexError", node)
        j = self.fresh("choice", I)
        self.fact(z3.And(0 <= j, j < zi(it.len)))
        return it.at(j)

    def lib_random_sample(self, args, kw, node):
        v, k = args[0], zi(args[1])
        l = self.iter_to_list(self.to_iter(v, node))
        s = self.sym_list(self.lst(l))
        n = zi(s[1])
        self.need(z3.And(k >= 0, k <= n), "ValueError", node)
        perm, inv = self.perm(n)
        at = s[2]
        return VList(("s", k, lambda j: at(z3.Select(perm, zi(j))), s[3], None))

    # ------------------------------------------------------------- methods of builtin values
    def call_method(self, recv, name, args, kw, node=None):
        recv = self.unopt(recv, node)
        if isinstance(name, tuple):
            raise Unsupported("super object call")
        for cls, pre in ((VList, "list"), (VDict, "dict"), (VSet, "set"), (VMeta, "meta"), (VConf, "conf"), (VIter, "iter"), (VCtx, "ctx"), (tuple, "tuple")):
            if isinstance(recv, cls):
                m = getattr(self, "m_%s_%s" % (pre, name), None)
                if m is None:
                    raise Unsupported("method %s.%s (line %s)" % (pre, name, getattr(node, "lineno", "?")))
                return m(recv, args, kw, node)
        if isstr(recv):
            return self.str_method(recv, name, args, kw, node)
        if isinstance(recv, VArr):
            return self.arr_method(recv, name, args, kw, node)
        if isnum(recv):
            if name == "item":
                return recv
            if name == "bit_length":
                return self.fresh("bitlen", I)
            self.implicit_raise("AttributeError", name, node)
        if is_sort(recv, PathS):
            return self.path_method(recv, name, args, kw, node)
        raise Unsupported("method %s of %s (line %s)" % (name, type(recv).__name__, getattr(node, "lineno", "?")))

    # list
    def m_list_append(self, v, args, kw, node):
        self.list_append(v, args[0])

    def list_extend(self, v, o):
        o = self.unopt(o)
        if not isinstance(o, VList):
            o = self.iter_to_list(self.to_iter(o))
        s = self.lst(o)
        if s[0] == "c":
            for x in s[1]:
                self.list_append(v, x)
            return
        if s[3] is None:
            return
        n = self.list_concat(v, o)
        ns = self.lst(n)
        if ns[0] == "s" and ns[4] is None:
            d = self.list_array(ns)
            ns = ("s", ns[1], self.sel(d), ns[3], d)
        self.write(v, ns)

    def m_list_extend(self, v, args, kw, node):
        self.list_extend(v, args[0])

    def m_list_remove(self, v, args, kw, node):
        self.list_remove(v, args[0], node)

    def m_list_clear(self, v, args, kw, node):
        s = self.lst(v)
        self.bump(v)
        if s[0] == "c":
            self.write(v, ("c", []))
        else:
            d = self.fresh("lst", z3.ArraySort(I, s[3].sort()))
            self.write(v, ("s", z3.IntVal(0), self.sel(d), s[3], d))

    def m_list_copy(self, v, args, kw, node):
        s = self.lst(v)
        return VList(("c", list(s[1])) if s[0] == "c" else s)

    def m_list_sort(self, v, args, kw, node):
        self.list_sort(v, kw.get("key"), kw.get("reverse", False), node)

    def m_list_pop(self, v, args, kw, node):
        n = self.list_len(v)
        i = self.index(args[0] if args else -1, n, node)
        x = self.list_get(v, i)
        x = self.snap(x)
        s = self.lst(v)
        if s[0] == "c" and isinstance(i, int):
            self.write(v, ("c", s[1][:i] + s[1][i + 1:]))
            return x
        s = self.sym_list(s)
        self.bump(v)
        if not args:
            self.write(v, ("s", z3.simplify(s[1] - 1), s[2], s[3], s[4]))
        else:
            self.write(v, self.list_delete_at(s, zi(i)))
        return x

    def m_list_insert(self, v, args, kw, node):
        s = self.lst(v)
        if s[0] == "c" and isinstance(args[0], int):
            l = list(s[1])
            l.insert(args[0], args[1])
            self.write(v, ("c", l))
            return
        s = self.sym_list(s, self.type_of(args[1]))
        p = zi(self.clamp(args[0], s[1], 0))
        x = self.box(s[3], args[1])
        at = s[2]
        d = self.fresh("lst", z3.ArraySort(I, s[3].sort()))
        j = z3.Int("j!in")
        self.fact(forall(j, z3.Select(d, j) == z3.If(j < p, at(j), z3.If(j == p, x, at(j - 1))), z3.Select(d, j)))
        self.bump(v)
        self.write(v, ("s", s[1] + 1, self.sel(d), s[3], d))
        self.adopt(v, p, args[1], s[3])

    def m_list_index(self, v, args, kw, node):
        s = self.sym_list(self.lst(v), self.type_of(args[0]))
        x = self.box(s[3], args[0])
        self.need(self.list_contains(v, args[0]), "ValueError", node)
        p = self.fresh("idx", I)
        j = z3.Int("j!ix")
        self.fact(z3.And(0 <= p, p < s[1], s[2](p) == x))
        self.fact(forall(j, IMP(z3.And(0 <= j, j < p), s[2](j) != x), s[2](j)))
        return p

    def m_list_count(self, v, args, kw, node):
        r = self.fresh("count", I)
        self.fact(z3.And(r >= 0, r <= zi(self.list_len(v))))
        self.fact((r > 0) == zb(self.list_contains(v, args[0])))
        return r

    def m_tuple_index(self, v, args, kw, node):
        raise Unsupported("tuple.index")

    def list_repeat(self, v, n):
        n = self.unopt(n)
        s = self.lst(v)
        if s[0] == "c" and isinstance(n, int):
            return VList(("c", s[1] * n))
        if s[0] == "c" and len(s[1]) == 1 and not isinstance(s[1][0], (VList, VDict, VSet, VObj)):
            t = self.type_of(s[1][0])
            if t.name == "None":
                t = TOpt(TMeta)
            x = self.box(t, s[1][0])
            ln = zi(n)
            return VList(("s", z3.If(ln > 0, ln, z3.IntVal(0)), lambda j: x, t, z3.K(I, x)))
        raise Unsupported("list repetition")

    # dict
    def m_dict_get(self, v, args, kw, node):
        k = args[0]
        default = args[1] if len(args) > 1 else None
        s = self.dct(v)
        if isinstance(k, VOpt):
            k = self.unopt(k, node)
        has = self.dict_has(v, k)
        if has is True:
            return self.dict_get(v, k, node)
        if has is False:
            return default
        if self.pure or (s[0] == "s" and not isinstance(s[4], (TList, TDict, TSet))):
            try:
                bk = self.box(s[3], k)
                x = self.unbox(s[4], z3.Select(s[2], bk))
                if default is None:
                    if isinstance(x, VOpt):
                        return VOpt(OR(NOT(has), x.isnone), x.value)
                    return VOpt(NOT(has), x)
                return self.merge(has, x, default)
            except Unsupported:
                if self.pure:
                    raise
        if self.branch(has):
            return self.dict_get(v, k, node)
        return default

    def m_dict_keys(self, v, args, kw, node):
        l = self.dict_keys(v)
        it = self.to_iter(l)
        return VIter(it.len, it.at, src=(v, self.dct(v)), kind="keys", info=v)

    def m_dict_values(self, v, args, kw, node):
        s = self.dct(v)
        if s[0] == "c":
            vals = list(s[1].values())
            return VIter(len(vals), lambda j: vals[j])
        n, e = self.dict_enum(s)
        it = VIter(n, lambda j: self.dict_val(v, s, z3.Select(e, zi(j))), src=(v, s), kind="values")
        it.key = lambda j: z3.Select(e, zi(j))
        return it

    def m_dict_items(self, v, args, kw, node):
        s = self.dct(v)
        if s[0] == "c":
            items = list(s[1].items())
            return VIter(len(items), lambda j: items[j])
        n, e = self.dict_enum(s)
        return VIter(n, lambda j: (self.unbox(s[3], z3.Select(e, zi(j))), self.dict_val(v, s, z3.Select(e, zi(j)))), src=(v, s), kind="items")

    def m_dict_pop(self, v, args, kw, node):
        k = args[0]
        has = self.dict_has(v, k)
        if len(args) > 1:
            s = self.dct(v)
            if has is False:
                return args[1]
            if not isinstance(has, bool) and s[0] == "s" and args[1] is None and not isinstance(s[4], (TList, TDict, TSet)):
                bk = self.box(s[3], k)
                x = self.unbox(s[4], z3.Select(s[2], bk))
                self.write(v, ("s", self.dom_store(s[1], bk, False), s[2], s[3], s[4]))
                return VOpt(NOT(has), x)
            if not self.branch(has):
                return args[1]
        else:
            self.need(has, "KeyError", node)
        x = self.snap(self.dict_get(v, k, node))
        self.dict_del(v, k, node, need=False)
        return x

    def m_dict_clear(self, v, args, kw, node):
        s = self.dct(v)
        if s[0] == "c":
            self.write(v, ("c", {}))
        else:
            self.bump(v)
            self.write(v, ("s", self.empty_dom(s[3].sort()), s[2], s[3], s[4]))

    def m_dict_copy(self, v, args, kw, node):
        s = self.dct(v)
        return VDict(("c", dict(s[1])) if s[0] == "c" else s)

    def m_dict_update(self, v, args, kw, node):
        if args:
            self.dict_update(v, args[0])
        for k, x in kw.items():
            self.dict_set(v, k, x)

    def m_dict_setdefault(self, v, args, kw, node):
        k = args[0]
        if not self.branch(self.dict_has(v, k)):
            self.dict_set(v, k, args[1] if len(args) > 1 else None)
        return self.dict_get(v, k, node)

    # set
    def m_set_add(self, v, args, kw, node):
        self.set_add(v, args[0])

    def m_set_discard(self, v, args, kw, node):
        s = self.sset(v)
        if s[0] == "c" and not s[1]:
            return
        self.set_add(v, args[0], False)

    def m_set_remove(self, v, args, kw, node):
        self.need(self.set_has(v, args[0]), "KeyError", node)
        self.set_add(v, args[0], False)

    def m_set_clear(self, v, args, kw, node):
        self.write(v, ("c", []))

    def m_set_copy(self, v, args, kw, node):
        return VSet(self.sset(v))

    def m_set_update(self, v, args, kw, node):
        o = self.unopt(args[0])
        if not isinstance(o, VSet):
            o = self.list_to_set(self.iter_to_list(self.to_iter(o)))
        if self.sset(o)[0] == "c":
            for x in self.sset(o)[1]:
                self.set_add(v, x)
            return
        self.write(v, self.sset(self.set_op("|", v, o)))

    def m_set_union(self, v, args, kw, node):
        o = args[0] if isinstance(args[0], VSet) else self.list_to_set(self.iter_to_list(self.to_iter(args[0])))
        return self.set_op("|", v, o)

    def m_set_issubset(self, v, args, kw, node):
        return self.compare(ast.LtE(), v, args[0] if isinstance(args[0], VSet) else self.list_to_set(self.iter_to_list(self.to_iter(args[0]))))

    def set_op(self, op, a, b):
        sa, sb = self.sset(a), self.sset(b)
        if sa[0] == "c" and not sa[1] and op == "|":
            return VSet(sb)
        if sb[0] == "c" and not sb[1] and op in ("|", "-"):
            return VSet(sa)
        t = self.join(self.type_of(VSet(sa)).t, self.type_of(VSet(sb)).t)
        sa, sb = self.sym_set(a, t), self.sym_set(b, t)
        dom = self.fresh("sop", sa[1].sort())
        k = z3.Const("k!so", t.sort())
        x, y = z3.Select(sa[1], k), z3.Select(sb[1], k)
        f = {"|": z3.Or(x, y), "&": z3.And(x, y), "-": z3.And(x, z3.Not(y)), "^": x != y}[op]
        self.fact(forall(k, z3.Select(dom, k) == f, z3.Select(dom, k), x, y))
        self.dom_facts(dom)
        return VSet(("s", dom, t))

    # opaque dictionaries
    def m_meta_copy(self, v, args, kw, node):
        return self.new_meta(self.meta_val(v))

    def m_meta_get(self, v, args, kw, node):
        return VOpaque(F("meta_get", MetaV, Str, Obj)(self.meta_val(v), self.S(args[0])), "PyAny")

    def meta_set(self, m, k, v):
        c = F("meta_put", MetaV, Str, Obj, MetaV)(self.meta_val(m), self.S(k), self.fresh("mv", Obj))
        self.set(self.st, "Hmeta", z3.Store(self.st.d["Hmeta"], m.ref, c))

    # configuration dictionaries
    def conf_has(self, v, k):
        if not isinstance(k, str):
            raise Unsupported("symbolic configuration key")
        self.conf_key(v, k)
        return v.d[k][0]

    def conf_key(self, v, k):
        if k not in v.d:
            t = v.types.get(k)
            if t is None:
                v.d[k] = (self.fresh("has_" + k, B), VOpaque(self.fresh("conf_" + k, Obj), "PyAny"))
            else:
                v.d[k] = (self.fresh("has_" + k, B), t(self, k) if callable(t) else self.havoc_value(t, "conf_" + k))

    def m_conf_get(self, v, args, kw, node):
        has = self.conf_has(v, args[0])
        default = args[1] if len(args) > 1 else None
        if not isinstance(has, bool):
            x = v.d[args[0]][1]
            for s, f, ok in ((I, zi, lambda d: isinstance(d, int) and not isinstance(d, bool)), (R, zr, lambda d: isinstance(d, (int, float)) and not isinstance(d, bool)),
                             (B, zb, lambda d: isinstance(d, bool)), (Str, self.S, lambda d: isinstance(d, str))):
                if is_sort(x, s) and (is_sort(default, s) or ok(default)):
                    return z3.If(has, x, f(default))
        if self.branch(has):
            return v.d[args[0]][1]
        return default

    def m_conf_copy(self, v, args, kw, node):
        c = VConf(v.d, v.name, v.types)
        return c

    # iterators
    def m_iter_tolist(self, v, args, kw, node):
        return self.iter_to_list(v)

    # contexts / loggers
    def m_ctx_acquire(self, v, args, kw, node):
        return True

    def m_ctx_release(self, v, args, kw, node):
        return None

    def _nolog(self, v, args, kw, node):
        return None

    m_ctx_debug = m_ctx_info = m_ctx_warning = m_ctx_error = m_ctx_exception = m_ctx_close = m_ctx_flush = _nolog

    # ------------------------------------------------------------- strings
    def substr(self, s, a, b):
        """s[a:b] for 0 <= a, b already clamped to len(s)."""
        a, b = z3.simplify(zi(a)), z3.simplify(zi(b))
        r = substr(s, a, b)
        self.fact(slen(r) == z3.If(b > a, b - a, z3.IntVal(0)))
        self.fact(slen(s) >= 0)
        return r

    def str_method(self, s, name, args, kw, node):
        m = getattr(self, "m_str_" + name, None)
        args = [self.unopt(a) if isinstance(a, VOpt) else a for a in args]
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args) and not kw and name not in ("encode", "join", "format", "split", "splitlines"):
            return getattr(s, name)(*args)
        if m is not None:
            return m(s, args, kw, node)
        t = self.S(s)
        if name in ("isalnum", "isdigit", "isspace", "isalpha", "isupper", "islower"):
            return F("str_" + name, Str, B)(t)
        if name in ("startswith", "endswith"):
            pre = args[0]
            if isinstance(pre, tuple):
                return OR(*[F("str_" + name, Str, Str, B)(t, self.S(p)) for p in pre])
            return F("str_" + name, Str, Str, B)(t, self.S(pre))
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase", "casefold") and all(isstr(a) for a in args):
            r = F("str_" + name + ("" if not args else "_a"), *([Str] * (len(args) + 2)))(t, *[self.S(a) for a in args])
            self.fact(slen(r) >= 0)
            if "strip" in name:
                self.fact(slen(r) <= slen(t))
            return r
        if name == "replace":
            return F("str_replace", Str, Str, Str, Str)(t, self.S(args[0]), self.S(args[1]))
        if name in ("find", "rfind", "index", "rindex", "count"):
            xs = [self.S(args[0])] + [zi(self.unopt(a)) for a in args[1:]]
            r = F("str_%s%d" % (name, len(xs)), *([Str, Str] + [I] * (len(xs) - 1) + [I]))(t, *xs)
            if name in ("find", "rfind"):
                lo = xs[1] if len(xs) > 1 else z3.IntVal(0)
                hi = xs[2] if len(xs) > 2 else slen(t)
                self.fact(z3.Or(r == -1, z3.And(r >= lo, r >= 0, r + slen(xs[0]) <= hi, r + slen(xs[0]) <= slen(t))))
            else:
                self.fact(r >= 0)
            return r
        if name == "encode":
            return VOpaque(F("str_encode", Str, Obj)(t), "bytes")
        if name == "format":
            return self.fresh("fmt", Str)
        if name in ("split", "splitlines"):
            key = F("split_%s%d" % (name, len(args)), *([Str] * (1 + len(args)) + [Obj]))(t, *[self.S(a) for a in args]) if all(isstr(a) for a in args) else self.fresh("split", Obj)
            n, d = F("split_len", Obj, I)(key), F("split_arr", Obj, z3.ArraySort(I, Str))(key)
            self.fact(n >= (1 if args else 0))
            return VList(("s", n, self.sel(d), TStr, d))
        raise Unsupported("string method %s (line %s)" % (name, getattr(node, "lineno", "?")))

    def m_str_join(self, s, args, kw, node):
        it = self.to_iter(args[0], node)
        if isinstance(it.len, int):
            parts = []
            for j in range(it.len):
                if j and s != "":
                    parts.append(s)
                parts.append(it.at(j))
            return self.str_concat(parts)
        l = self.iter_to_list(it)
        st = self.sym_list(self.lst(l))
        if st[3] != TStr:
            raise Unsupported("join of non-strings")
        r = F("str_join", Str, z3.ArraySort(I, Str), I, Str)(self.S(s), self.list_array(st), zi(st[1]))
        self.fact(slen(r) >= 0)
        return r

    # ------------------------------------------------------------- opaque values
    def opaque_compare(self, o, a, b, node):
        raise Unsupported("comparison of opaque values (line %s)" % getattr(node, "lineno", "?"))

    def opaque_contains(self, c, x):
        raise Unsupported("membership in opaque value " + c.kind)

    def opaque_getitem(self, v, ix, node):
        raise Unsupported("indexing %s (line %s)" % (type(v).__name__ if not isinstance(v, VOpaque) else v.kind, getattr(node, "lineno", "?")))

    def opaque_setitem(self, c, ix, v, node):
        raise Unsupported("item assignment on %s (line %s)" % (type(c).__name__, getattr(node, "lineno", "?")))

    def opaque_attr(self, v, name, node):
        if v.kind == "digest" and name == "hexdigest":
            return VPy(lambda ex, a, k, n: F("digest_hex", Obj, Str)(v.term), name)
        if v.kind == "uuid" and name in ("hex",):
            return F("uuid_hex", Obj, Str)(v.term)
        if v.kind == "bytes" and name in ("decode",):
            return VPy(lambda ex, a, k, n: ex.fresh("decoded", Str))
        if v.kind == "bytes":
            return VPy(lambda ex, a, k, n: VOpaque(ex.fresh("bytes", Obj), "bytes"))
        raise Unsupported("attribute %s of opaque %s (line %s)" % (name, v.kind, getattr(node, "lineno", "?")))

    def opaque_call(self, f, args, kw, node):
        raise Unsupported("call of opaque value (line %s)" % getattr(node, "lineno", "?"))

    def opaque_iter(self, v, node):
        if v is None or isnum(v):
            self.implicit_raise("TypeError", "not iterable", node)
        raise Unsupported("iteration over %s (line %s)" % (type(v).__name__ if not isinstance(v, VOpaque) else v.kind, getattr(node, "lineno", "?")))

    # ------------------------------------------------------------- paths and files
    PJOIN = staticmethod(lambda d, s: F("pjoin", PathS, Str, PathS)(d, s))

    def init_fs(self):
        self.st.d.setdefault("fexists", z3.Const("fexists0", z3.ArraySort(PathS, B)))
        self.st.d.setdefault("fdata", z3.Const("fdata0", z3.ArraySort(PathS, Obj)))
        d, d2, s, s2 = z3.Const("d", PathS), z3.Const("d2", PathS), z3.Const("s", Str), z3.Const("s2", Str)
        J, simple, nosep = F("pjoin", PathS, Str, PathS), F("simple_name", Str, B), F("nosep", Str, B)
        self.raw_fact(forall([d, s], IMP(simple(s), z3.And(F("pparent", PathS, PathS)(J(d, s)) == d, F("pname", PathS, Str)(J(d, s)) == s)), J(d, s)))
        # s + literal suffix: decomposable, simple when s has no separator
        self.raw_fact(forall([s, s2], z3.And(F("sc_left", Str, Str, Str)(sconcat(s, s2), s2) == s), sconcat(s, s2)))
        for suf in (".npy", ".pkl"):
            q = sconcat(s, lit(suf))
            self.raw_fact(forall([s], IMP(nosep(s), z3.And(simple(q), IMP(slen(s) > 0, z3.And(F("nstem", Str, Str)(q) == s, F("nsuffix", Str, Str)(q) == lit(suf))))), q))
        p = z3.Const("p", PathS)
        self.raw_fact(forall([p], F("pstem", PathS, Str)(p) == F("nstem", Str, Str)(F("pname", PathS, Str)(p)), F("pstem", PathS, Str)(p)))
        self.raw_fact(forall([p], F("psuffix", PathS, Str)(p) == F("nsuffix", Str, Str)(F("pname", PathS, Str)(p)), F("psuffix", PathS, Str)(p)))
        a, b = z3.Const("a", Arr), z3.Const("m", MetaV)
        fa, ga = F("file_of_arr", Arr, Obj), F("arr_of_file", Obj, Arr)
        self.raw_fact(forall([a], ga(fa(a)) == a, fa(a)))
        fm, gm = F("file_of_meta", MetaV, Obj), F("meta_of_file", Obj, MetaV)
        self.raw_fact(forall([b], IMP(b != NOMETA, gm(fm(b)) == b), fm(b)))

    def lib_pathlib_Path(self, args, kw, node):
        v = self.unopt(args[0], node)
        if is_sort(v, PathS):
            p = v
        else:
            p = F("path_of", Str, PathS)(self.S(v))
        for a in args[1:]:
            p = self.path_join(p, a)
        return p

    def path_str(self, p):
        s = F("str_of_path", PathS, Str)(p)
        self.fact(F("path_of", Str, PathS)(s) == p)
        return s

    def path_join(self, d, s):
        if is_sort(s, PathS):
            return F("pjoin_p", PathS, PathS, PathS)(d, s)
        return F("pjoin", PathS, Str, PathS)(d, self.S(s))

    def path_attr(self, p, name, node):
        if name == "parent":
            return F("pparent", PathS, PathS)(p)
        if name in ("name", "stem", "suffix"):
            return F("p" + name, PathS, Str)(p)
        if name == "parts":
            raise Unsupported("path parts")
        return VMethod(p, name)

    def fexists(self, p):
        return z3.Select(self.st.d["fexists"], p)

    def fs_write(self, p, data):
        self.set(self.st, "fexists", z3.Store(self.st.d["fexists"], p, z3.BoolVal(True)))
        self.set(self.st, "fdata", z3.Store(self.st.d["fdata"], p, data))

    def path_method(self, p, name, args, kw, node):
        if name == "mkdir":
            return None
        if name in ("exists", "is_file"):
            return self.fexists(p)
        if name == "is_dir":
            return self.fresh("isdir", B)
        if name == "unlink":
            mo = kw.get("missing_ok", args[0] if args else False)
            if mo is not True:
                self.need(self.fexists(p), "FileNotFoundError", node)
            self.set(self.st, "fexists", z3.Store(self.st.d["fexists"], p, z3.BoolVal(False)))
            return None
        if name in ("glob",) and isinstance(args[0], str):
            return self.fs_glob(p, args[0], node)
        if name in ("rglob", "iterdir"):
            n = self.fresh("nfiles", I)
            self.fact(n >= 0)
            arr = self.fresh("files", z3.ArraySort(I, PathS))
            return VIter(n, lambda j: z3.Select(arr, zi(j)))
        if name == "stat":
            o = VObj("stat")
            o.d["st_size"] = self.fresh("st_size", I)
            self.fact(o.d["st_size"] >= 0)
            o.d["st_mtime"] = F("mtime", PathS, R)(p)
            return o
        if name in ("with_suffix",):
            return F("with_suffix", PathS, Str, PathS)(p, self.S(args[0]))
        if name in ("joinpath",):
            return self.path_join(p, args[0])
        if name in ("resolve", "absolute", "expanduser"):
            return p
        if name == "open":
            return self.lib_builtins_open([p] + list(args), kw, node)
        if name == "as_posix":
            return self.path_str(p)
        raise Unsupported("path method %s (line %s)" % (name, getattr(node, "lineno", "?")))

    def isglob(self, d, suf, p):
        return z3.And(F("pparent", PathS, PathS)(p) == d, F("psuffix", PathS, Str)(p) == lit(suf), p == self.PJOIN(d, F("pname", PathS, Str)(p)))

    def globset(self, fe, d, suf):
        """Set of existing files of directory d with the suffix, as a function of the file system."""
        G = F("globset", fe.sort(), PathS, Str, z3.ArraySort(PathS, B))
        g = G(fe, d, lit(suf))
        key = ("mem", "glob", fe.get_id(), d.get_id(), suf)
        if key in self.st.d:
            return g
        self.set(self.st, key, fe)
        p = z3.Const("p!gl", PathS)
        self.fact(forall(p, z3.Select(g, p) == z3.And(z3.Select(fe, p), self.isglob(d, suf, p)), z3.Select(g, p)))
        self.fact(forall(p, z3.Select(g, p) == z3.And(z3.Select(fe, p), self.isglob(d, suf, p)), z3.Select(fe, p)))
        self.dom_facts(g)
        if z3.is_store(fe):
            old, q, b = fe.children()
            g0 = self.globset(old, d, suf)
            c = self.CARD(PathS)
            isg = self.isglob(d, suf, q)
            if z3.is_true(b):
                self.fact(g == z3.If(isg, z3.Store(g0, q, z3.BoolVal(True)), g0))
                self.fact(c(g) == c(g0) + z3.If(z3.And(isg, z3.Not(z3.Select(old, q))), 1, 0))
            else:
                self.fact(g == z3.If(isg, z3.Store(g0, q, z3.BoolVal(False)), g0))
                self.fact(c(g) == c(g0) - z3.If(z3.And(isg, z3.Select(old, q)), 1, 0))
        return g

    def fs_glob(self, d, pat, node):
        if not (pat.startswith("*.") and pat.count("*") == 1):
            raise Unsupported("glob pattern %s" % pat)
        g = self.globset(self.st.d["fexists"], d, pat[1:])
        n, e = self.enum(g)
        return VIter(n, lambda j: z3.Select(e, zi(j)))

    def lib_builtins_open(self, args, kw, node):
        p = self.unopt(args[0])
        if isstr(p):
            p = F("path_of", Str, PathS)(self.S(p))
        mode = _opt(kw, args, 1, "mode", "r")
        if mode.startswith("r"):
            self.need(self.fexists(p), "FileNotFoundError", node)
        elif mode.startswith("w"):
            self.fs_write(p, self.fresh("empty", Obj))
        elif mode.startswith("a"):
            pass
        return VCtx(None, "file", {"path": p, "mode": mode})

    def file_content(self, v):
        t = self.type_of(v)
        if isinstance(v, VMeta):
            return F("file_of_meta", MetaV, Obj)(self.meta_val(v))
        if isinstance(v, VOpaque):
            return F("file_of_obj", Obj, Obj)(v.term)
        fn, inv = F("file_of_" + t.name, t.sort(), Obj), F("val_of_file_" + t.name, Obj, t.sort())
        b = self.box(t, v)
        self.fact(inv(fn(b)) == b)
        return fn(b)

    def lib_pickle_dump(self, args, kw, node):
        v = self.unopt(args[0])
        f = args[1]
        if not (isinstance(f, VCtx) and f.kind == "file"):
            raise Unsupported("pickle.dump target")
        self.fs_write(f.data["path"], self.file_content(v))

    def lib_pickle_load(self, args, kw, node):
        f = args[0]
        if not (isinstance(f, VCtx) and f.kind == "file"):
            raise Unsupported("pickle.load source")
        return VOpaque(z3.Select(self.st.d["fdata"], f.data["path"]), "filedata")

    def lib_numpy_save(self, args, kw, node):
        p = args[0]
        v = self.unopt(args[1])
        if not isinstance(v, VArr):
            raise Unsupported("np.save of a non-array")
        if isstr(p):
            p = F("path_of", Str, PathS)(self.S(p))
        if isinstance(p, VCtx):
            p = p.data["path"]
        self.fs_write(p, F("file_of_arr", Arr, Obj)(self.arr_box(v)))

    def lib_numpy_load(self, args, kw, node):
        p = args[0]
        if isinstance(p, VCtx):
            p = p.data["path"]
        if isstr(p):
            p = F("path_of", Str, PathS)(self.S(p))
        self.need(self.fexists(p), "FileNotFoundError", node)
        return self.arr_from_box(F("arr_of_file", Obj, Arr)(z3.Select(self.st.d["fdata"], p)), 1, "f")
