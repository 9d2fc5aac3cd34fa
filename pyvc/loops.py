"""Loops: write-set discovery, inferred invariants (Houdini over generic and contract-supplied candidates)."""
import itertools
from .execm import *


import os as _os
DEBUG = bool(_os.environ.get("PYVC_LOOPS"))


class LoopInfo:
    def __init__(self):
        self.mods, self.names, self.abrupt, self.checks, self.measures = {}, [], False, False, None
        self.pre = {}


class LoopCtx:
    """What a candidate invariant may talk about."""

    def __init__(self, ex, st, it, i, info, pre):
        self.ex, self.st, self.it, self.i, self.info, self.pre = ex, st, it, i, info, pre
        self.n = it.len if it is not None else None

    def cur(self, cell):
        return Val.registry[cell[0]].d.get(cell[1])

    def mods(self):
        return self.info.mods

    def local(self, name):
        return self.ex.frame.env.d.get(name)


class LoopsMixin:
    discover = 0
    warm = None
    UNROLL = 12

    # ------------------------------------------------------------- iterables
    def to_iter(self, v, node=None):
        v = self.unopt(v, node)
        if isinstance(v, VIter):
            return v
        if isinstance(v, tuple):
            return VIter(len(v), lambda j: v[j] if isinstance(j, int) else self.list_get(VList(("c", list(v))), j))
        if isinstance(v, VList):
            s = self.lst(v)
            if s[0] == "c":
                return VIter(len(s[1]), lambda j: s[1][j] if isinstance(j, int) else self.list_get(VList(s), j), src=(v, s), kind="list")

            def at(j):
                par = (v, zi(j), self.version(v)) if isinstance(s[3], (TList, TDict, TSet)) else None
                return self.unbox(s[3], s[2](zi(j)), par)
            return VIter(s[1], at, src=(v, s), kind="list")
        if isinstance(v, VDict):
            s = self.dct(v)
            k = self.dict_keys(v)
            it = self.to_iter(k)
            return VIter(it.len, it.at, src=(v, s), kind="dict")
        if isinstance(v, VSet):
            s = self.sset(v)
            if s[0] == "c":
                if len(s[1]) <= 1:
                    return VIter(len(s[1]), lambda j: s[1][j])
                s = self.sym_set(v)
            n, e = self.enum(s[1])
            sel = self.sel(e)
            return VIter(n, lambda j: self.unbox(s[2], sel(zi(j))), src=(v, self.sset(v)), kind="set")
        if isinstance(v, VArr):
            return self.arr_iter(v)
        if isstr(v):
            if isinstance(v, str):
                return VIter(len(v), lambda j: v[j] if isinstance(j, int) else self.substr(lit(v), zi(j), zi(j) + 1))
            return VIter(slen(v), lambda j: self.substr(v, zi(j), zi(j) + 1), kind="str")
        return self.opaque_iter(v, node)

    def concrete_iter(self, v, expect=None):
        v = self.unopt(v)
        if isinstance(v, tuple):
            return list(v)
        it = self.to_iter(v)
        if isinstance(it.len, int):
            return [it.at(j) for j in range(it.len)]
        if expect is not None:
            self.need(it.len == expect, "ValueError", msg="unpack")
            return [it.at(j) for j in range(expect)]
        raise Unsupported("iteration over a symbolic sequence in a concrete context")

    def iter_contains(self, it, x):
        if it.kind == "keys":
            return self.contains(it.info, x)
        if isinstance(it.len, int):
            return OR(*[self.eq(it.at(j), x) for j in range(it.len)])
        if it.kind == "range" and isnum(x):
            lo, hi, step = it.info
            if step == 1:
                return AND(zi(lo) <= zi(x), zi(x) < zi(hi))
        return self.list_contains(self.iter_to_list(it), x)

    def iter_to_list(self, it):
        if isinstance(it, VList):
            return it
        if isinstance(it.len, int):
            return VList(("c", [it.at(j) for j in range(it.len)]))
        if it.src is not None and isinstance(it.src[0], VList) and it.kind == "list":
            return VList(it.src[1])
        if it.kind == "array" and not self.pure and "alloc" in self.st.d:
            x = it.at(z3.Int("j!it"))
            if isinstance(x, VArr) and len(x.d["s"][0]) == 1 and x.d["s"][2] == "f":
                return self.rows_to_list(it, x)
        j = z3.Int("j!it")
        self.pure.append({"vars": [j], "guards": [z3.And(j >= 0, j < it.len)]})
        try:
            x = it.at(j)
            t = self.type_of(x)
            body = self.box(t, x)
        finally:
            self.pure.pop()
        return VList(("s", zi(it.len), lambda k: z3.substitute(body, (j, zi(k))), t, None))

    def rows_to_list(self, it, x):
        """The rows of a matrix as a list of vectors, one new address each (the matrix is not written through them)."""
        n, base, H = zi(it.len), self.st.d["alloc"], self.st.d["Hvec"]
        j, r, i = z3.Int("j!it"), z3.Int("r!it"), z3.Int("i!it")
        dim, e = zi(x.d["s"][0][0]), zr(x.d["s"][1](i))
        H2 = self.fresh("Hvec", H.sort())
        w = z3.Select(H2, r)
        sub = lambda f: z3.substitute(f, (j, r - base))
        new = z3.And(base <= r, r < base + n)
        self.fact(forall(r, IMP(r < base, w == z3.Select(H, r)), w))
        self.fact(forall(r, IMP(new, z3.And(adim(w, 0) == sub(dim), z3.Not(client(r)))), w))
        self.fact(forall([r, i], IMP(z3.And(new, 0 <= i, i < sub(dim)), at1(w, i) == sub(e)), at1(w, i)))
        if x.d["s"][3] is not None:
            self.fact(forall(r, IMP(new, w == sub(x.d["s"][3])), w))
        self.fact(forall(r, IMP(new, z3.Not(client(r))), client(r)))
        self.set(self.st, "Hvec", H2)
        self.set(self.st, "alloc", z3.simplify(base + n))
        return VList(("s", n, lambda k: base + zi(k), TArr, None))

    # ------------------------------------------------------------- statements
    def st_For(self, st):
        it = self.to_iter(self.ev(st.iter), st)
        if isinstance(it.len, int) and it.len <= self.UNROLL:
            for j in range(it.len):
                self.assign(st.target, it.at(j))
                try:
                    self.block(st.body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
            self.block(st.orelse)
            return
        self.sym_loop(st, it)

    def st_While(self, st):
        self.sym_loop(st, None)

    # ------------------------------------------------------------- symbolic loop
    def loop_head(self, st, it, info, pre, names, extra=True):
        """Arbitrary state at the loop head satisfying the surviving candidates."""
        self.havoc_cells(info.mods)
        i = None
        if it is not None:
            i = self.fresh("i", I)
            self.fact(z3.And(i >= 0, i <= zi(it.len)))
        L = LoopCtx(self, st, it, i, info, pre)
        if names:
            for nm, f in self.candidates(L):
                if nm in names:
                    self.fact(zb(f))
        return L

    def sym_loop(self, st, it):
        if self.pure:
            raise NeedFork()
        self.tick()
        k0 = (st.lineno, st.col_offset)
        self.visit[k0] = self.visit.get(k0, 0) + 1
        key = (self.ctx, tuple(self.trail[:self.pos]), k0, self.visit[k0], tuple(f.fn.node.lineno if f.fn else 0 for f in self.frames))
        pre = self.snap_all()
        if key not in self.loop_cache:
            m = self.mark()
            info = self.analyse(st, it, key, pre)
            self.rollback(m)            # nothing the analysis made may distinguish this run from a later run of the same path
            self.loop_cache[key] = info
        info = self.loop_cache[key]
        L = self.loop_head(st, it, info, pre, info.names)
        if it is not None:
            go = self.branch(L.i < zi(it.len)) if (info.abrupt or info.checks) else self.skip_iter(L, it)
        else:
            go = self.cond(st.test)
        if not go:
            if it is not None:
                self.fact(L.i == zi(it.len))
            if it is None and self.require_term and info.measures is not None and not self.discover:
                self.check("loop at line %d terminates" % st.lineno, len(info.measures) > 0, "line %d" % st.lineno)
            self.block(st.orelse)
            return
        if it is not None:
            self.assign(st.target, it.at(L.i))
        try:
            self.block(st.body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        raise PathEnd()

    require_term = False

    def skip_iter(self, L, it):
        return False

    def snap(self, v):
        if isinstance(v, VList):
            return VList(self.lst(v))
        if isinstance(v, VDict):
            return VDict(self.dct(v))
        if isinstance(v, VSet):
            return VSet(self.sset(v))
        if isinstance(v, VArr):
            s = v.d["s"]
            n = VArr(s[0], s[1], s[2], s[3], s[4])
            n.ref = v.ref
            return n
        return v

    def snap_all(self):
        """Lazy snapshot of the state before the loop: function cell -> value."""
        n = len(self.undo)
        log = self.undo
        cache = {}
        ex = self

        class Pre:
            def get(s, cell):
                """Value of a cell at loop entry (only valid while the undo log still covers it)."""
                if cell in cache:
                    return cache[cell]
                owner = Val.registry[cell[0]]
                cur = owner.d.get(cell[1], None)
                for o, k, old in reversed(log[n:]):
                    if o is owner and k == cell[1]:
                        cur = old if old is not ex._ABS else None
                cache[cell] = cur
                return cur

            def state(s, obj):
                return s.get((obj.sid, "s"))
        return Pre()

    def prevalue(self, pre, v):
        """Pre-loop version of a (root) container value."""
        if isinstance(v, (VList, VDict, VSet, VArr)) and not v.parent:
            st = pre.get((v.sid, "s"))
            if isinstance(v, VArr):
                return VArr(*st)
            return type(v)(st)
        return v

    def havoc_cells(self, mods):
        for (sid, key), t in list(mods.items()):
            o = Val.registry[sid]
            old = o.d.get(key)
            if o is self.st:
                if isinstance(key, tuple) and key[0] in ("dom", "enum", "mem", "pow2"):
                    continue
                v = self.fresh(str(key) + "_h", old.sort())
                if key == "alloc":
                    self.fact(v >= old)
                self.set(o, key, v)
                continue
            if isinstance(key, str) and key.startswith("$") and is_z3(old) and z3.is_array(old):
                v = self.fresh(key[1:] + "_h", old.sort())
                if old.sort().range() == B:
                    self.dom_facts(v)
                self.set(o, key, v)
                continue
            if key == "s" and isinstance(o, (VList, VDict, VSet)):
                if t is None:
                    raise Unsupported("container type does not stabilise in loop")
                v = self.havoc_value(t, type(o).__name__.lower())
                self.set(o, "s", v.d["s"])
                continue
            if key == "s" and isinstance(o, VArr):
                s = o.d["s"]
                m = self.fresh_mat(len(s[0]), s[2], "arr")
                ms = m.d["s"]
                for a, b in zip(ms[0], s[0]):
                    self.fact(zi(a) == zi(b))
                self.set(o, "s", (s[0], ms[1], s[2], ms[3], None))
                continue
            if key == "version":
                self.set(o, key, (old or 0) + 1000)
                continue
            if t is None:
                self.set(o, key, VPoison("not well typed after a loop"))
                continue
            v = self.havoc_value(t, key if isinstance(key, str) else "v", old)
            self.set(o, key, v)

    # ------------------------------------------------------------- analysis
    def analyse(self, st, it, key, pre):
        info = LoopInfo()
        stamp = Val.counter
        mode, self.mode = self.mode, "analysis"
        try:
            self.discovery(st, it, info, stamp, pre)
            if not self.discover:
                self.houdini(st, it, info, pre, key)
        finally:
            self.mode = mode
        return info

    def one_iteration(self, st, it, L):
        """Runs guard and body once; True at a normal end."""
        if it is not None:
            self.fact(L.i < zi(it.len))
            self.assign(st.target, it.at(L.i))
        else:
            if not self.cond(st.test):
                raise PathEnd()
        try:
            self.block(st.body)
        except ContinueEx:
            pass

    def discovery(self, st, it, info, stamp, pre):
        for rnd in range(12):
            found = {}

            def thunk():
                rec = (stamp, {})
                L = self.loop_head(st, it, info, pre, None)
                self.recorders.append(rec)
                nfr = len(self.frames)
                try:
                    self.one_iteration(st, it, L)
                except (BreakEx, ReturnEx, PyRaise):
                    del self.frames[nfr:]
                    info.abrupt = True
                    return
                finally:
                    self.recorders.remove(rec)
                for cell in rec[1]:
                    o = Val.registry[cell[0]]
                    if o is self.st:
                        if not (isinstance(cell[1], tuple) and cell[1][0] in ("dom", "enum", "mem", "pow2")):
                            found[cell] = TInt
                        continue
                    if cell[1] not in o.d:
                        found[cell] = None
                        continue
                    v = o.d[cell[1]]
                    if cell[1] == "s" and isinstance(o, (VList, VDict, VSet)):
                        t = self.state_type(o, v)
                    elif cell[1] in ("s", "version"):
                        t = TInt
                    else:
                        t = self.cell_type(v)
                    if cell in found:
                        t = self.safe_join(found[cell], t)
                    found[cell] = t
            self.discover += 1
            try:
                self.explore(thunk, ("d", rnd, st.lineno, st.col_offset))
            finally:
                self.discover -= 1
            changed = False
            for cell, t in found.items():
                o = Val.registry[cell[0]]
                if cell not in info.mods:
                    changed = True
                    if cell[1] == "s" and isinstance(o, (VList, VDict, VSet)):
                        t = self.safe_join(t, self.state_type(o, o.d["s"]))
                    elif o is not self.st and cell[1] not in ("s", "version"):
                        t = self.safe_join(t, self.cell_type(o.d[cell[1]])) if cell[1] in o.d and t is not None else None
                    info.mods[cell] = t
                else:
                    t2 = self.safe_join(info.mods[cell], t)
                    if (t2.name if t2 else None) != (info.mods[cell].name if info.mods[cell] else None):
                        changed = True
                        info.mods[cell] = t2
            if not changed:
                return
        raise Unsupported("loop write set does not stabilise (line %d)" % st.lineno)

    def state_type(self, o, s):
        try:
            return self.type_of(type(o)(s))
        except Unsupported:
            return None

    def cell_type(self, v):
        try:
            return self.type_of(v)
        except Unsupported:
            return None

    def safe_join(self, a, b):
        if a is None or b is None:
            return None
        try:
            return self.join(a, b)
        except Unsupported:
            return None

    # ------------------------------------------------------------- candidates
    def candidates(self, L):
        c = Val.counter
        try:
            return self.candidates_of(L)
        finally:
            Val.counter = c         # values made for candidates are temporary; later identities must not depend on them

    def candidates_of(self, L):
        out = []
        seen = set()
        for pool in [LoopsMixin.generic_pool] + self.loop_pools:
            try:
                for nm, f in (pool(self, L) if pool is LoopsMixin.generic_pool else pool(L)):
                    if f is None or isinstance(f, bool) and f:
                        continue
                    if nm not in seen:
                        seen.add(nm)
                        out.append((nm, zb(f)))
            except (Unsupported, NeedFork) as e:
                if DEBUG:
                    print("candidates of line %s cut short: %s %s" % (L.st.lineno, type(e).__name__, e))
                continue
        return out

    def lists_of(self, L, cells=None):
        """Modified lists: [(name, current VList, pre VList or None)]."""
        out = []
        done = set()
        for cell in L.info.mods:
            o = Val.registry[cell[0]]
            if cell[1] == "s" and isinstance(o, VList):
                if o.sid in done:
                    continue
                done.add(o.sid)
                ps = L.pre.get(cell)
                out.append(("L%d" % o.sid, o, VList(ps) if ps else None))
            elif isinstance(o.d.get(cell[1]), VList):
                v = o.d[cell[1]]
                if v.sid in done:
                    continue
                done.add(v.sid)
                pv = L.pre.get(cell)
                if isinstance(pv, VList):
                    pv = self.prevalue(L.pre, pv)
                else:
                    pv = None
                out.append(("C%d.%s" % (cell[0], cell[1]), v, pv))
        return out

    def typed_lists(self, L):
        """Modified lists in symbolic form: [(name, state, pre VList or None)] (type taken from the loop's write set)."""
        types = {}
        for cell, t in L.info.mods.items():
            o = Val.registry[cell[0]]
            if isinstance(o, VList):
                if cell[1] == "s":
                    types[o.sid] = t
            elif isinstance(o.d.get(cell[1]), VList):
                types[o.d[cell[1]].sid] = t
        out = []
        for nm, v, p in self.lists_of(L):
            s = self.lst(v)
            if s[0] == "c":
                t = types.get(v.sid)
                if not isinstance(t, TList) or not self.complete(t):
                    continue
                if s[1]:
                    s = self.sym_list(s, t.t)
                else:
                    d = z3.Const("nil_" + t.name, z3.ArraySort(I, t.t.sort()))
                    s = ("s", z3.IntVal(0), self.sel(d), t.t, d)
            out.append((nm, s, p))
        return out

    def ints_of(self, L, sort=I):
        out = []
        for cell in L.info.mods:
            o = Val.registry[cell[0]]
            if o is self.st:
                if cell[1] == "alloc":
                    continue
                continue
            v = o.d.get(cell[1])
            if cell[1] in ("s", "version"):
                continue
            if is_sort(v, sort) or (sort == I and isinstance(v, int) and not isinstance(v, bool)) or (sort == R and isinstance(v, (float, Fraction))):
                out.append(("C%d.%s" % cell if isinstance(cell[1], str) else str(cell), v, L.pre.get(cell)))
        return out

    def generic_pool(self, L):
        i, n = L.i, L.n
        ints = self.ints_of(L)
        lists = self.lists_of(L)
        for nm, v, p in ints:
            v = zi(v)
            yield nm + ">=0", v >= 0
            if p is not None and isnum(p) and not is_sort(p, R) and not isinstance(p, (float, Fraction, bool)):
                p = zi(p)
                yield nm + ">=pre", v >= p
                yield nm + "<=pre", v <= p
                if i is not None:
                    yield nm + "=pre+i", v == p + i
                    yield nm + "<=pre+i", v <= p + i
                    yield nm + "=pre-i", v == p - i
        for nm, v, p in self.ints_of(L, R):
            yield nm + ">=0", zr(v) >= 0
        for cell in L.info.mods:
            o = Val.registry[cell[0]]
            v, p = o.d.get(cell[1]), L.pre.get(cell)
            if o is not self.st and (is_sort(v, B)) and (isinstance(p, bool) or is_sort(p, B)):
                yield "B%d.%s=pre" % (cell[0], cell[1]), v == zb(p)
        for nm, v, p in lists:
            ln = zi(self.list_len(v))
            if p is not None:
                pl = zi(self.list_len(p))
                yield nm + ".len>=pre", ln >= pl
                if i is not None:
                    yield nm + ".len=pre+i", ln == pl + i
                    yield nm + ".len<=pre+i", ln <= pl + i
                if not (z3.is_int_value(z3.simplify(pl)) and z3.simplify(pl).as_long() == 0):
                    s, q = self.lst(v), self.lst(p)
                    if s[0] == "s" and q[0] == "s" and s[3] == q[3]:
                        j = z3.Int("j!pf")
                        yield nm + ".prefix", forall(j, IMP(z3.And(0 <= j, j < pl), s[2](j) == q[2](j)), s[2](j))
        for (na, a, _), (nb, b, _) in itertools.combinations(lists, 2):
            yield "len %s=%s" % (na, nb), zi(self.list_len(a)) == zi(self.list_len(b))
        for na, a, _ in lists:
            for nb, b, _ in ints:
                yield "len %s=%s" % (na, nb), zi(self.list_len(a)) == zi(b)
        if L.it is None:
            for nm, f in self.guard_bounds(L, ints):
                yield nm, f
        if L.it is not None and L.it.src is not None:
            yield "iterated container unchanged", self.src_unchanged(L.it)

    def src_unchanged(self, it):
        o, s = it.src
        if isinstance(o, VList):
            c = self.lst(o)
            if c is s:
                return True
            if c[0] != s[0]:
                return False
            if c[0] == "c":
                return c[1] is s[1]
            j = z3.Int("j!src")
            if isinstance(c[3], (TList, TDict, TSet)):      # elements are read through the list: only its structure matters
                return True if zi(c[1]).eq(zi(s[1])) else zi(c[1]) == zi(s[1])
            if c[4] is not None and s[4] is not None and c[4].eq(s[4]) and zi(c[1]).eq(zi(s[1])):
                return True
            return AND(zi(c[1]) == zi(s[1]), forall(j, IMP(z3.And(0 <= j, j < zi(s[1])), c[2](j) == s[2](j)), c[2](j)))
        if isinstance(o, VDict):
            c = self.dct(o)
            if c is s:
                return True
            if c[0] != s[0] or c[0] == "c":
                return False
            return True if c[1].eq(s[1]) else c[1] == s[1]
        c = self.sset(o)
        return True if c is s else (c[0] == "s" and s[0] == "s" and c[1] == s[1])

    def guard_bounds(self, L, ints):
        """v <= w / v >= w between modified integers and integer locals or constants of the guard."""
        others = []
        env = self.frame.env
        modcells = set(L.info.mods)
        for k, v in env.d.items():
            if (env.sid, k) not in modcells and (is_sort(v, I)):
                others.append((k, v))
        for k, v in self.guard_terms(L):
            others.append((k, v))
        for nm, v, p in ints:
            for k, w in others[:12]:
                yield "%s<=%s" % (nm, k), zi(v) <= zi(w)

    def guard_terms(self, L):
        out = []
        for c in ast.walk(L.st.test):
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                for side in (c.left, c.comparators[0]):
                    if isinstance(side, (ast.Attribute, ast.Call, ast.Constant)):
                        try:
                            v = self.quiet_ev(side)
                        except Exception:
                            continue
                        if is_sort(v, I) or (isinstance(v, int) and not isinstance(v, bool)):
                            out.append((ast.unparse(side), v))
        return out

    def quiet_ev(self, node):
        """Evaluate a simple expression without forking."""
        if not all(isinstance(x, (ast.Attribute, ast.Name, ast.Constant, ast.Load, ast.Call, ast.BinOp, ast.operator, ast.Subscript)) for x in ast.walk(node)):
            raise Unsupported("guard term")
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "min", "max")):
                raise Unsupported("guard term")
        self.pure.append({"vars": [], "guards": []})
        try:
            return self.ev(node)
        finally:
            self.pure.pop()

    def measure_terms(self, st):
        out = {}
        for c in ast.walk(st.test):
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                try:
                    a, b = self.quiet_ev(c.left), self.quiet_ev(c.comparators[0])
                except (Unsupported, NeedFork, PyRaise):
                    continue
                if not (isnum(a) and isnum(b)) or any(is_sort(x, R) or isinstance(x, (float, Fraction)) for x in (a, b)):
                    continue
                if isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.NotEq)):
                    out[ast.unparse(c)] = zi(b) - zi(a)
                if isinstance(c.ops[0], (ast.Gt, ast.GtE, ast.NotEq)):
                    out[ast.unparse(c) + ">"] = zi(a) - zi(b)
        return out

    # ------------------------------------------------------------- Houdini
    def houdini(self, st, it, info, pre, key):
        wk = (tuple(c[0] for c in self.ctx), key[1], key[2], key[3])
        L0 = LoopCtx(self, st, it, z3.IntVal(0) if it is not None else None, info, pre)
        # typed initial state (so that candidate names agree with later rounds)
        names = None
        cands0 = {}

        def head_names():
            L = self.loop_head(st, it, info, pre, None)
            cands0["names"] = [nm for nm, _ in self.candidates(L)]
        m = self.mark()
        head_names()
        self.rollback(m)
        names = set(cands0["names"])
        if self.warm is None:
            self.warm = {}
        if wk in self.warm:
            names &= self.warm[wk]
        # initialisation
        init = dict(self.candidates(L0))
        conj = [init[nm] for nm in names if nm in init]
        if not (conj and self.prove(z3.And(*conj))):
            for nm in sorted(names):
                if nm in init and not self.prove(init[nm]):
                    names.discard(nm)
        for nm in list(names):
            if nm not in init and not self.trivial_init(nm, L0):
                names.discard(nm)
        measures = None
        rnd = 0
        if DEBUG:
            print("HOUDINI line", st.lineno, "cands", sorted(cands0["names"]), "\n  after init lost", sorted(set(cands0["names"]) - names))
        while True:
            rnd += 1
            bad = set()
            info.abrupt_now = False
            info.checks = False
            mok = {"m": None}

            def thunk():
                L = self.loop_head(st, it, info, pre, names)
                before = self.measure_terms(st) if it is None and self.require_term else {}
                nfr = len(self.frames)
                oldcheck = self.check_count
                try:
                    self.one_iteration(st, it, L)
                except (BreakEx, ReturnEx, PyRaise):
                    del self.frames[nfr:]
                    info.abrupt_now = True
                    return
                finally:
                    if self.check_count != oldcheck:
                        info.checks = True
                L2 = LoopCtx(self, st, it, (L.i + 1) if it is not None else None, info, pre)
                cur = dict(self.candidates(L2))
                todo = [nm for nm in sorted(names) if nm not in bad]
                fs = [cur[nm] for nm in todo if nm in cur]
                missing = [nm for nm in todo if nm not in cur]
                for nm in missing:
                    if not self.trivial_init(nm, L2):
                        bad.add(nm)
                if fs and not self.prove(z3.And(*fs)):
                    for nm in todo:
                        if nm in cur and not self.prove(cur[nm]):
                            bad.add(nm)
                if it is None and self.require_term:
                    after = self.measure_terms(st)
                    good = set()
                    for k, mb in before.items():
                        if k in after and (mok["m"] is None or k in mok["m"]):
                            if self.prove(z3.And(mb >= 0, after[k] < mb)):
                                good.add(k)
                    mok["m"] = good if mok["m"] is None else mok["m"] & good
            self.explore(thunk, ("h", rnd, st.lineno, st.col_offset))
            if DEBUG:
                print("  round", rnd, "lost", sorted(bad))
            if not bad:
                break
            names -= bad
        info.abrupt = info.abrupt_now
        info.names = frozenset(names)
        info.measures = mok["m"]
        self.warm[wk] = frozenset(names)
        if it is not None and it.src is not None and "iterated container unchanged" not in names \
                and "iterated container unchanged" in cands0["names"]:
            raise Unsupported("container modified while iterated (line %d)" % st.lineno)

    check_count = 0

    def trivial_init(self, nm, L):
        """Candidates whose formula is trivially true are left out by candidates(); recognise them."""
        seen = {}
        for pool in [LoopsMixin.generic_pool] + self.loop_pools:
            try:
                for k, f in (pool(self, L) if pool is LoopsMixin.generic_pool else pool(L)):
                    if k == nm:
                        return isinstance(f, bool) and f
            except (Unsupported, NeedFork):
                continue
        return False
