"""Values: types, boxing, containers (lists, dictionaries, sets), heap references."""
from .interp import *
from . import core


def fresh_name(prefix, *parts):
    return prefix + "".join(parts)


class ValuesMixin:
    # ------------------------------------------------------------- types
    def type_of(self, v):
        if v is None:
            return TNone
        if isinstance(v, bool):
            return TBool
        if isinstance(v, int):
            return TInt
        if isinstance(v, (float, Fraction)):
            return TReal
        if isinstance(v, str):
            return TStr
        if is_z3(v):
            s = v.sort()
            if s == I:
                return TInt
            if s == R:
                return TReal
            if s == B:
                return TBool
            if s == Str:
                return TStr
            if s == PathS:
                return TPath
            raise Unsupported("type of term of sort %s" % s)
        if isinstance(v, VOpt):
            t = self.type_of(v.value)
            return t if isinstance(t, TOpt) else TOpt(t)
        if isinstance(v, VArr):
            nd, dt = len(v.d["s"][0]), v.d["s"][2]
            return TArr if nd == 1 else TMat(nd, dt)
        if isinstance(v, VMeta):
            return TMeta
        if isinstance(v, tuple):
            return TTup(*[self.type_of(x) for x in v])
        if isinstance(v, VList):
            s = self.lst(v)
            if s[0] == "c":
                t = None
                for x in s[1]:
                    t = self.join(t, self.type_of(x))
                return TList(t)
            return TList(s[3])
        if isinstance(v, VDict):
            s = self.dct(v)
            if s[0] == "c":
                if not s[1]:
                    return TDict(None, None)
                if all(isinstance(k, str) for k in s[1]):
                    return TRec(**{k: self.type_of(x) for k, x in s[1].items()})
                kt = vt = None
                for k, x in s[1].items():
                    kt, vt = self.join(kt, self.type_of(k)), self.join(vt, self.type_of(x))
                return TDict(kt, vt)
            return TDict(s[3], s[4], v.default)
        if isinstance(v, VSet):
            s = self.sset(v)
            if s[0] == "c":
                t = None
                for x in s[1]:
                    t = self.join(t, self.type_of(x))
                return TSet(t)
            return TSet(s[2])
        if isinstance(v, VOpaque):
            return TObj(v.kind)
        if isinstance(v, VPoison):
            return TUnknown
        if isinstance(v, (VObj, VFunc, VPy, VConf, VLib, ClassInfo)):
            return TConst(v)
        raise Unsupported("type of %s" % type(v).__name__)

    def join(self, a, b):
        if a is None or a == b:
            return b
        if b is None:
            return a
        if a is TNone or a.name == "None":
            return b if isinstance(b, TOpt) else TOpt(b)
        if b.name == "None":
            return a if isinstance(a, TOpt) else TOpt(a)
        if isinstance(a, TOpt) or isinstance(b, TOpt):
            x = a.t if isinstance(a, TOpt) else a
            y = b.t if isinstance(b, TOpt) else b
            return TOpt(self.join(x, y))
        nm = {a.name, b.name}
        if nm == {"Int", "Real"} or nm == {"Bool", "Real"}:
            return TReal
        if nm == {"Int", "Bool"}:
            return TInt
        if isinstance(a, TTup) and isinstance(b, TTup) and len(a.ts) == len(b.ts):
            return TTup(*[self.join(x, y) for x, y in zip(a.ts, b.ts)])
        if isinstance(a, TList) and isinstance(b, TList):
            return TList(self.join(a.t, b.t))
        if isinstance(a, TSet) and isinstance(b, TSet):
            return TSet(self.join(a.t, b.t))
        if isinstance(a, TDict) and isinstance(b, TDict):
            return TDict(self.join(a.k, b.k), self.join(a.v, b.v))
        if isinstance(a, TDict) and a.k is None and isinstance(b, TRec):
            return TDict(TStr, None) if False else b
        if isinstance(a, TRec) and isinstance(b, TRec) and set(a.fields) == set(b.fields):
            return TRec(**{k: self.join(a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, TRec) and isinstance(b, TDict) and b.k is None:
            return a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TObj) and x.kind in self.doc_kinds and (isinstance(y, TRec) or isinstance(y, TObj) and y.kind in self.doc_kinds):
                return x
        raise Unsupported("cannot join types %s and %s" % (a, b))

    def complete(self, t):
        """Is the type fully known?"""
        if t is None or t.name == "?":
            return False
        if isinstance(t, (TList, TSet, TOpt)):
            return self.complete(t.t)
        if isinstance(t, TDict):
            return self.complete(t.k) and self.complete(t.v)
        if isinstance(t, TTup):
            return all(self.complete(x) for x in t.ts)
        if isinstance(t, TRec):
            return all(self.complete(x) for x in t.fields.values())
        return not isinstance(t, TConst)

    # ------------------------------------------------------------- boxing
    def box(self, t, v, owner=None):
        """z3 term of sort t.sort() for value v."""
        if isinstance(v, VPoison):
            raise Unsupported("poisoned value: %s" % v.why)
        if isinstance(t, TOpt):
            if v is None:
                return t.none()
            if isinstance(v, VOpt):
                if v.isnone is True:
                    return t.none()
                return ITE(v.isnone, t.none(), t.some(self.box(t.t, v.value)))
            return t.some(self.box(t.t, v))
        if isinstance(v, VOpt):
            self.need(NOT(v.isnone), "TypeError", msg="unexpected None")
            v = v.value
        if t == TInt:
            if isinstance(v, (bool, int)):
                return z3.IntVal(int(v))
            if is_sort(v, I):
                return v
            if is_sort(v, B):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        elif t == TReal:
            if isinstance(v, (bool, int, float, Fraction)) or (is_z3(v) and v.sort() in (I, R, B)):
                return zr(v)
        elif t == TBool:
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if is_sort(v, B):
                return v
        elif t == TStr:
            if isinstance(v, str):
                return lit(v)
            if is_sort(v, Str):
                return v
        elif t == TPath:
            if is_sort(v, PathS):
                return v
        elif t == TArr:
            if isinstance(v, VArr):
                return self.arr_ref(v)
        elif t == TMeta:
            if isinstance(v, VMeta):
                return v.ref
            if isinstance(v, VDict):
                return self.meta_of_dict(v).ref
        elif isinstance(t, TObj):
            if isinstance(v, VOpaque):
                return v.term
            if isinstance(v, VDict) and t.kind in self.doc_kinds:
                return self.dict_obj(v)
        elif isinstance(t, TTup):
            if isinstance(v, tuple) and len(v) == len(t.ts):
                return t.dt().constructor(0)(*[self.box(x, y) for x, y in zip(t.ts, v)])
        elif isinstance(t, TRec):
            if isinstance(v, VDict):
                s = self.dct(v)
                if s[0] == "c" and set(s[1]) == set(t.fields):
                    return t.dt().constructor(0)(*[self.box(x, s[1][k]) for k, x in t.fields.items()])
        elif isinstance(t, TList):
            if isinstance(v, VList):
                return self.box_list(t, self.lst(v))
        elif isinstance(t, TDict):
            if isinstance(v, VDict):
                dom, mp = self.dict_arrays(v, t.k, t.v)
                return t.dt().constructor(0)(dom, mp)
        elif isinstance(t, TSet):
            if isinstance(v, VSet):
                return t.dt().constructor(0)(self.set_array(v, t.t))
        elif isinstance(t, TMat):
            if isinstance(v, VArr):
                return self.arr_box(v)
        raise Unsupported("cannot box %s as %s" % (type(v).__name__ if not is_z3(v) else v.sort(), t))

    doc_kinds = ()

    def dict_obj(self, v):
        """A dictionary with known keys as an opaque document: functions of the document give presence and values of the keys."""
        s = self.dct(v)
        if s[0] != "c" or not all(isinstance(k, str) for k in s[1]):
            raise Unsupported("document of unknown shape")
        ks = sorted(s[1])
        ts = [self.type_of(s[1][k]) for k in ks]
        bs = [self.box(t, s[1][k]) for k, t in zip(ks, ts)]
        f = F("mkdoc<%s>" % ",".join("%s:%s" % (k, t.name) for k, t in zip(ks, ts)), *([b.sort() for b in bs] + [Obj]))
        o = f(*bs) if bs else z3.Const("mkdoc<>", Obj)
        for k, b in zip(ks, bs):
            self.fact(F("doc_%s_%s" % (k, b.sort()), Obj, b.sort())(o) == b)
        x = z3.Const("x!dk", Str)
        h = F("doc_has", Obj, Str, B)
        self.fact(forall(x, h(o, x) == z3.Or(*[x == lit(k) for k in ks]), h(o, x)))
        return o

    def unbox(self, t, x, parent=None):
        if isinstance(t, TOpt):
            n = z3.simplify(t.is_none(x))
            return VOpt(True if z3.is_true(n) else False if z3.is_false(n) else n, self.unbox(t.t, t.val(x), None)) \
                if not z3.is_false(n) else self.unbox(t.t, t.val(x))
        if t in (TInt, TReal, TBool, TStr, TPath):
            return x
        if t == TArr:
            return self.arr_from_ref(x)
        if t == TMeta:
            return VMeta(x)
        if isinstance(t, TObj):
            return VOpaque(x, t.kind)
        if isinstance(t, TTup):
            return tuple(self.unbox(y, self.acc(t, i, x)) for i, y in enumerate(t.ts))
        if isinstance(t, TRec):
            v = VDict(("c", {k: self.unbox(y, self.acc(t, i, x)) for i, (k, y) in enumerate(t.fields.items())}))
            if parent:
                v.shared = True
            return v
        if isinstance(t, TList):
            v = VList(self.list_state(t, x))
            v.parent = parent
            return v
        if isinstance(t, TDict):
            v = VDict(self.dict_state(t, x), default=self.default_of(t))
            v.parent = parent
            return v
        if isinstance(t, TSet):
            v = VSet(self.set_state(t, x))
            v.parent = parent
            return v
        if isinstance(t, TMat):
            v = self.arr_from_box(x, t.nd, t.dtype)
            v.shared = True         # held by value: an in-place change would be lost
            return v
        if isinstance(t, TConst):
            return t.v
        raise Unsupported("cannot unbox %s" % t)

    def acc(self, t, i, x):
        dt = t.dt()
        if z3.is_app(x) and x.decl().eq(dt.constructor(0)):
            return x.arg(i)
        return dt.accessor(0, i)(x)

    def list_state(self, t, x):
        n, d = self.acc(t, 0, x), self.acc(t, 1, x)
        if not z3.is_int_value(n):
            self.fact(n >= 0)
        return ("s", n, self.sel(d), t.t, d)

    def dict_state(self, t, x):
        dom, mp = self.acc(t, 0, x), self.acc(t, 1, x)
        self.dom_facts(dom)
        return ("s", dom, mp, t.k, t.v)

    def default_of(self, t):
        """Factory of a defaultdict type."""
        if t.default is None:
            return None
        return lambda: VList(("c", [])) if isinstance(t.v, TList) else self.havoc_value(t.v, "default")

    def set_state(self, t, x):
        dom = self.acc(t, 0, x)
        self.dom_facts(dom)
        return ("s", dom, t.t)

    @staticmethod
    def sel(d):
        return lambda j: z3.simplify(z3.Select(d, zi(j))) if z3.is_store(d) else z3.Select(d, zi(j))

    def havoc_value(self, t, name, old=None):
        """Fresh value of type t."""
        if t.name == "None":
            return None
        if isinstance(t, TConst):
            return t.v
        if not self.complete(t):
            if isinstance(t, TList) and t.t is None:
                return VList(("c", []))
            if isinstance(t, TDict) and t.k is None:
                return VDict(("c", {}))
            if isinstance(t, TSet) and t.t is None:
                return VSet(("c", []))
            return VPoison("value of unknown type " + name)
        if isinstance(t, TTup):
            return tuple(self.havoc_value(x, name) for x in t.ts)
        if isinstance(t, TOpt):
            return VOpt(self.fresh(name + "_none", B), self.havoc_value(t.t, name))
        if t == TArr and isinstance(old, VArr) and old.ref is None:
            return self.fresh_mat(len(old.d["s"][0]), old.d["s"][2], name)
        if t == TArr:
            v = self.arr_from_ref(self.fresh(name, I))
            self.fact(z3.And(v.ref >= 0, v.ref < self.st.d["alloc"]))
            return v
        return self.unbox(t, self.fresh(name, t.sort()))

    # ------------------------------------------------------------- reading/writing container state
    def _through(self, v):
        """State of a view, read through its parent."""
        cont, key, ver = v.parent
        if self.version(cont) != ver:
            raise Unsupported("stale view of a nested container")
        if isinstance(cont, VList):
            s = self.lst(cont)
            return s[3], s[2](key)
        s = self.dct(cont)
        return s[4], z3.Select(s[2], key)

    def version(self, c):
        return c.d.get("version", 0)

    def bump(self, c):
        self.set(c, "version", c.d.get("version", 0) + 1)

    def lst(self, v):
        if v.parent:
            t, x = self._through(v)
            return self.list_state(t.t if isinstance(t, TOpt) else t, t.val(x) if isinstance(t, TOpt) else x)
        return v.d["s"]

    def dct(self, v):
        if v.parent:
            t, x = self._through(v)
            return self.dict_state(t, x)
        return v.d["s"]

    def sset(self, v):
        if v.parent:
            t, x = self._through(v)
            return self.set_state(t, x)
        return v.d["s"]

    def write(self, v, s):
        """Replace the state of a container."""
        if v.shared:
            raise Unsupported("mutation of a shared container")
        if self.pure:
            raise NeedFork()
        if v.parent:
            cont, key, ver = v.parent
            if self.version(cont) != ver:
                raise Unsupported("stale view of a nested container")
            cs = self.lst(cont) if isinstance(cont, VList) else self.dct(cont)
            t = cs[3] if isinstance(cont, VList) else cs[4]
            tmp = type(v)(s)
            x = self.box(t, tmp)
            if isinstance(cont, VList):
                self.write(cont, self.list_store(cs, key, x))
            else:
                self.write(cont, ("s", cs[1], z3.Store(cs[2], key, x), cs[3], cs[4]))
        else:
            self.set(v, "s", s)

    def list_store(self, s, j, x):
        if s[4] is not None:
            d = z3.Store(s[4], zi(j), x)
            return ("s", s[1], self.sel(d), s[3], d)
        at = s[2]
        return ("s", s[1], lambda i: z3.If(zi(i) == zi(j), x, at(i)), s[3], None)

    def adopt(self, cont, key, v, t):
        """v (mutable) has been stored in cont at key: later writes through v go there."""
        if isinstance(v, (VList, VDict, VSet)) and not isinstance(t, TRec) and t != TMeta:
            if v.parent or isinstance(t, (TOpt, TObj)):
                self.setattr_u(v, "shared", True)
            else:
                self.setattr_u(v, "parent", (cont, key, self.version(cont)))
        elif isinstance(v, VDict):
            self.setattr_u(v, "shared", True)
            s = self.dct(v)
            if isinstance(t, TRec) and s[0] == "c":
                self.freeze(s[1].values())
        elif isinstance(v, tuple):
            self.freeze(v)
        elif isinstance(v, VArr) and isinstance(t, TMat):
            self.freeze((v,))

    def freeze(self, vs):
        """Values kept by value inside a container: later writes through the original are not modelled."""
        for x in vs:
            if isinstance(x, (VList, VDict, VSet)) or isinstance(x, VArr) and len(x.d["s"][0]) != 1:
                self.setattr_u(x, "shared", True)

    # ------------------------------------------------------------- lists
    def sym_list(self, s, t=None):
        """('s', ...) form of a list state, element type joined with t."""
        if s[0] == "s":
            if t is None or s[3] == t:
                return s
            jt = self.join(s[3], t)
            if jt == s[3]:
                return s
            old, ot = s[2], s[3]
            return ("s", s[1], lambda j: self.box(jt, self.unbox(ot, old(j))), jt, None)
        et = None
        for x in s[1]:
            et = self.join(et, self.type_of(x))
        et = self.join(et, t)
        if et is None or not self.complete(et):
            raise Unsupported("list of unknown element type %s" % et)
        d = self.fresh("lst", z3.ArraySort(I, et.sort()))
        for i, x in enumerate(s[1]):
            d = z3.Store(d, i, self.box(et, x))
        return ("s", z3.IntVal(len(s[1])), self.sel(d), et, d)

    def box_list(self, t, s):
        s = self.sym_list(s, t.t) if s[0] == "c" and s[1] else s
        if s[0] == "c":
            if t.t is None:
                raise Unsupported("boxing an empty list of unknown type")
            d = z3.Const("nil_" + t.name, z3.ArraySort(I, t.t.sort()))
            return t.dt().constructor(0)(z3.IntVal(0), d)
        s = self.sym_list(s, t.t)
        return t.dt().constructor(0)(zi(s[1]), self.list_array(s))

    def list_array(self, s):
        if s[4] is not None:
            return s[4]
        d = self.fresh("lst", z3.ArraySort(I, s[3].sort()))
        j = z3.Int("j!box")
        self.fact(forall(j, IMP(z3.And(j >= 0, j < s[1]), z3.Select(d, j) == s[2](j)), z3.Select(d, j)))
        return d

    def list_len(self, v):
        s = self.lst(v)
        return len(s[1]) if s[0] == "c" else s[1]

    def list_get(self, v, j):
        """Element at a valid index (int or Int term)."""
        s = self.lst(v)
        if s[0] == "c":
            if isinstance(j, int):
                return s[1][j]
            if z3.is_int_value(j):
                return s[1][j.as_long()]
            s = self.sym_list(s)
        par = (v, zi(j), self.version(v)) if isinstance(s[3], (TList, TDict, TSet)) else None
        return self.unbox(s[3], s[2](zi(j)), par)

    def known(self, x):
        """A value that is optional in general but certainly there on this path."""
        if isinstance(x, VOpt) and not self.pure and x.isnone is not True and self.prove(NOT(x.isnone)):
            return x.value
        return x

    def list_append(self, v, x):
        s = self.lst(v)
        x = self.known(x)
        if s[0] == "c" and not v.parent and not self.in_loop_havoc(v):
            self.write(v, ("c", s[1] + [x]))
            return
        t = self.type_of(x)
        s = self.sym_list(s, t)
        n = s[1]
        bx = self.box(s[3], x)
        if s[4] is not None:
            old = s[4]
            d = z3.Store(old, n, bx)
            ns = ("s", z3.simplify(n + 1), self.sel(d), s[3], d)
        else:
            at = s[2]
            ns = ("s", z3.simplify(n + 1), lambda j: z3.If(zi(j) == n, bx, at(j)), s[3], None)
        self.mem_lemma_append(s, ns, bx)
        self.write(v, ns)
        self.adopt(v, n, x, s[3])

    def in_loop_havoc(self, v):
        return False

    def MEM(self, t):
        return F("MEM_" + t.name, t.sort(), t.t.sort(), B)

    def DISTINCT(self, t):
        return F("DISTINCT_" + t.name, t.sort(), B)

    def mem_axioms(self, t):
        if ("mem", t.name) in self.st.d:
            return
        self.set(self.st, ("mem", t.name), True)
        L, x, j, i = z3.Const("L", t.sort()), z3.Const("x", t.t.sort()), z3.Int("j"), z3.Int("i")
        dt, M, D = t.dt(), self.MEM(t), self.DISTINCT(t)
        ix = F("lidx_" + t.name, t.sort(), t.t.sort(), I)
        n, d = dt.accessor(0, 0)(L), dt.accessor(0, 1)(L)
        self.raw_fact(forall([L, x], IMP(M(L, x), z3.And(0 <= ix(L, x), ix(L, x) < n, z3.Select(d, ix(L, x)) == x)), M(L, x)))
        self.raw_fact(forall([L, j], IMP(z3.And(0 <= j, j < n), M(L, z3.Select(d, j))), z3.Select(d, j)))
        self.raw_fact(forall([L, i, j], IMP(z3.And(D(L), 0 <= j, j < n, 0 <= i, i < n, z3.Select(d, i) == z3.Select(d, j)), i == j),
                          (D(L), z3.Select(d, i), z3.Select(d, j))))
        da, db = F("dupa_" + t.name, t.sort(), I)(L), F("dupb_" + t.name, t.sort(), I)(L)
        self.raw_fact(forall([L], z3.Or(D(L), z3.And(0 <= da, da < db, db < n, z3.Select(d, da) == z3.Select(d, db))), D(L)))
        self.raw_fact(forall([L], IMP(n == 0, z3.And(D(L), z3.ForAll([x], z3.Not(M(L, x))))), D(L)))
        self.raw_fact(forall([L, x], IMP(n == 0, z3.Not(M(L, x))), M(L, x)))

    def raw_fact(self, f):
        self.fact(f, raw=True)

    def boxed(self, s, t=None):
        return self.box_list(TList(t or s[3]), s)

    def mem_lemma_append(self, s, ns, bx):
        t = TList(s[3])
        if ("mem", t.name) not in self.st.d or s[4] is None:
            return
        a, b = self.boxed(s), self.boxed(ns)
        M, D = self.MEM(t), self.DISTINCT(t)
        y = z3.Const("y", s[3].sort())
        self.fact(forall(y, M(b, y) == z3.Or(M(a, y), y == bx), M(b, y), M(a, y)))
        self.fact(D(b) == z3.And(D(a), z3.Not(M(a, bx))))

    def mem_lemma_remove(self, s, ns, bx):
        t = TList(s[3])
        if ("mem", t.name) not in self.st.d:
            return
        a, b = self.boxed(s), self.boxed(ns)
        M, D = self.MEM(t), self.DISTINCT(t)
        y = z3.Const("y", s[3].sort())
        self.fact(forall(y, IMP(M(b, y), M(a, y)), M(b, y)))
        self.fact(forall(y, IMP(z3.And(M(a, y), y != bx), M(b, y)), M(b, y), M(a, y)))
        self.fact(IMP(D(a), z3.And(D(b), z3.Not(M(b, bx)))))

    def list_contains(self, v, x):
        s = self.lst(v)
        if s[0] == "c":
            return OR(*[self.eq(y, x) for y in s[1]])
        t = TList(s[3])
        if isinstance(s[3], (TArr.__class__,)) and s[3] in (TArr, TMeta):
            raise Unsupported("membership of references")
        bx = self.box(s[3], x)
        self.mem_axioms(t)
        return self.MEM(t)(self.boxed(s), bx)

    def list_remove(self, v, x, node=None):
        s = self.lst(v)
        s = self.sym_list(s, self.type_of(x))
        bx = self.box(s[3], x)
        self.need(self.list_contains(v, x), "ValueError", node, "list.remove(x): x not in list")
        p = self.fresh("rm", I)
        n, at = s[1], s[2]
        j = z3.Int("j!rm")
        self.fact(z3.And(0 <= p, p < n, at(p) == bx))
        self.fact(forall(j, IMP(z3.And(0 <= j, j < p), at(j) != bx), at(j)))
        ns = self.list_delete_at(s, p)
        self.mem_lemma_remove(s, ns, bx)
        self.bump(v)
        self.write(v, ns)

    def list_delete_at(self, s, p):
        n, at = s[1], s[2]
        d = self.fresh("lst", z3.ArraySort(I, s[3].sort()))
        j = z3.Int("j!rm")
        self.fact(forall(j, z3.Select(d, j) == z3.If(j < p, at(j), at(j + 1)), z3.Select(d, j)))
        if s[4] is not None:
            self.fact(forall(j, IMP(z3.And(j != p), at(j) == z3.If(j < p, z3.Select(d, j), z3.Select(d, j - 1))), at(j)))
        return ("s", n - 1, self.sel(d), s[3], d)

    def list_slice(self, v, lo, hi):
        """Plain slice with already clamped bounds 0<=lo<=hi<=len."""
        s = self.lst(v)
        if s[0] == "c" and isinstance(lo, int) and isinstance(hi, int):
            return VList(("c", s[1][lo:hi]))
        if s[0] == "c" and not s[1]:
            return VList(("c", []))
        s = self.sym_list(s) if s[0] == "c" else s
        at = s[2]
        n = z3.simplify(zi(hi) - zi(lo))
        if isinstance(lo, int) and lo == 0 or (is_z3(lo) and z3.is_int_value(lo) and lo.as_long() == 0):
            return VList(("s", n, at, s[3], s[4]))
        return VList(("s", n, lambda j: at(zi(j) + zi(lo)), s[3], None))

    def clamp(self, x, n, default):
        """Python slice bound clamping."""
        if x is None:
            return default
        if isinstance(x, VOpt):
            return self.clamp_opt(x, n, default)
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return max(0, min(x, n))
        x, n = zi(x), zi(n)
        if z3.is_int_value(x) and x.as_long() >= 0:
            if x.as_long() == 0:
                return 0
            return z3.If(x > n, n, x)
        y = z3.If(x < 0, x + n, x)
        return z3.simplify(z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y)))

    def clamp_opt(self, x, n, default):
        if self.branch(x.isnone):
            return default
        return self.clamp(x.value, n, default)

    def list_concat(self, a, b):
        sa, sb = self.lst(a), self.lst(b)
        if sa[0] == "c" and sb[0] == "c":
            return VList(("c", sa[1] + sb[1]))
        if sa[0] == "c" and not sa[1]:
            return VList(sb)
        if sb[0] == "c" and not sb[1]:
            return VList(sa)
        t = self.join(self.type_of(VList(sa)).t, self.type_of(VList(sb)).t)
        sa, sb = self.sym_list(sa, t), self.sym_list(sb, t)
        n = sa[1]
        fa, fb = sa[2], sb[2]
        return VList(("s", z3.simplify(n + sb[1]), lambda j: z3.If(zi(j) < n, fa(j), fb(zi(j) - n)), t, None))

    # ------------------------------------------------------------- dom (sets of keys)
    def CARD(self, ks):
        return F("card_" + ks.name(), z3.ArraySort(ks, B), I)

    def dom_facts(self, dom):
        if ("dom", dom.get_id()) in self.st.d and self.st.d[("dom", dom.get_id())][0] == len(self.pure):
            return
        ks = dom.sort().domain()
        c = self.CARD(ks)(dom)
        w = F("wit_" + ks.name(), z3.ArraySort(ks, B), ks)(dom)
        k = z3.Const("k!dom", ks)
        if not self.pure:
            self.set(self.st, ("dom", dom.get_id()), (0, dom))
        self.fact(c >= 0)
        self.fact(IMP(c > 0, z3.Select(dom, w)))
        self.fact(forall(k, IMP(z3.Select(dom, k), c > 0), z3.Select(dom, k)))

    def empty_dom(self, ks):
        d = z3.K(ks, z3.BoolVal(False))
        self.fact(self.CARD(ks)(d) == 0)
        return d

    def dom_store(self, dom, k, b):
        ks = dom.sort().domain()
        d = z3.Store(dom, k, z3.BoolVal(b))
        c = self.CARD(ks)
        if b:
            self.fact(c(d) == c(dom) + z3.If(z3.Select(dom, k), 0, 1))
        else:
            self.fact(c(d) == c(dom) - z3.If(z3.Select(dom, k), 1, 0))
        self.dom_facts(d)
        return d

    def card(self, dom):
        self.dom_facts(dom)
        return self.CARD(dom.sort().domain())(dom)

    def enum(self, dom, cache=None):
        """Fresh enumeration (arbitrary order) of a key set: (len, Array Int->key)."""
        ks = dom.sort().domain()
        n = self.card(dom)
        e = self.fresh("enum", z3.ArraySort(I, ks))
        ix = self.fresh("eidx", z3.ArraySort(ks, I))
        j, k = z3.Int("j!en"), z3.Const("k!en", ks)
        ej = z3.Select(e, j)
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(z3.Select(dom, ej), z3.Select(ix, ej) == j)), ej))
        ik = z3.Select(ix, k)
        self.fact(forall(k, IMP(z3.Select(dom, k), z3.And(0 <= ik, ik < n, z3.Select(e, ik) == k)), z3.Select(dom, k), ik))
        return n, e

    # ------------------------------------------------------------- dictionaries
    def dict_arrays(self, v, kt=None, vt=None):
        """(dom, map) arrays of a dictionary with the given key/value types."""
        s = self.dct(v)
        if s[0] == "s":
            kt2 = self.join(s[3], kt)
            vt2 = self.join(s[4], vt)
            if kt2 != s[3]:
                raise Unsupported("dictionary key type change")
            if vt2 != s[4]:
                mp = self.fresh("map", z3.ArraySort(kt2.sort(), vt2.sort()))
                k = z3.Const("k!cv", kt2.sort())
                self.fact(forall(k, z3.Select(mp, k) == self.box(vt2, self.unbox(s[4], z3.Select(s[2], k))), z3.Select(mp, k)))
                return s[1], mp
            return s[1], s[2]
        dom = self.empty_dom(kt.sort())
        mp = self.fresh("map", z3.ArraySort(kt.sort(), vt.sort()))
        for k, x in s[1].items():
            bk = self.box(kt, k)
            dom = self.dom_store(dom, bk, True)
            mp = z3.Store(mp, bk, self.box(vt, x))
        return dom, mp

    def sym_dict(self, v, kt=None, vt=None):
        s = self.dct(v)
        if s[0] == "s" and (vt is None or self.join(s[4], vt) == s[4]):
            return s
        t = self.type_of(v)
        if isinstance(t, TRec):
            et = None
            for y in t.fields.values():
                et = self.join(et, y)
            t = TDict(TStr, et)
        kt, vt = self.join(t.k, kt), self.join(t.v, vt)
        if not self.complete(kt) or not self.complete(vt):
            raise Unsupported("dictionary of unknown type %s -> %s" % (kt, vt))
        dom, mp = self.dict_arrays(v, kt, vt)
        return ("s", dom, mp, kt, vt)

    def dict_has(self, v, k):
        s = self.dct(v)
        if s[0] == "c":
            if isinstance(k, (str, int)) and not is_z3(k):
                if k in s[1]:
                    return True
                return False
            return OR(*[self.eq(x, k) for x in s[1]])
        return z3.Select(s[1], self.box(s[3], k))

    def dict_get(self, v, k, node=None):
        s = self.dct(v)
        if s[0] == "c":
            if not is_z3(k):
                if k not in s[1]:
                    return self.implicit_raise("KeyError", str(k), node)
                return s[1][k]
            for kk, x in s[1].items():
                if self.branch(self.eq(kk, k)):
                    return x
            return self.implicit_raise("KeyError", "", node)
        bk = self.box(s[3], k)
        if v.default is not None:
            if not self.branch(z3.Select(s[1], bk)):
                self.dict_set(v, k, v.default())
                s = self.dct(v)
        else:
            self.need(z3.Select(s[1], bk), "KeyError", node)
        return self.dict_val(v, s, bk)

    def dict_val(self, v, s, bk):
        par = (v, bk, self.version(v)) if isinstance(s[4], (TList, TDict, TSet)) else None
        return self.unbox(s[4], z3.Select(s[2], bk), par)

    def dict_set(self, v, k, x, overwrite_view=True):
        s = self.dct(v)
        if s[0] == "c" and not is_z3(k) and isinstance(k, (str, int)) and not v.parent:
            d = dict(s[1])
            d[k] = x
            self.write(v, ("c", d))
            return
        if isinstance(x, VOpt) and isinstance(x.value, VMeta):
            x = self.known(x)
        s = self.sym_dict(v, self.type_of(k), self.type_of(x))
        bk, bx = self.box(s[3], k), self.box(s[4], x)
        if isinstance(s[4], (TList, TDict, TSet)):
            self.bump(v)
        dom = s[1] if zb(z3.Select(s[1], bk)).get_id() in self.factset else self.dom_store(s[1], bk, True)
        self.write(v, ("s", dom, z3.Store(s[2], bk, bx), s[3], s[4]))
        self.adopt(v, bk, x, s[4])

    def dict_del(self, v, k, node=None, need=True):
        s = self.dct(v)
        if s[0] == "c":
            if not is_z3(k):
                if k not in s[1]:
                    return self.implicit_raise("KeyError", str(k), node)
                d = dict(s[1])
                del d[k]
                self.write(v, ("c", d))
                return
            if not s[1]:
                return self.implicit_raise("KeyError", "", node)
            s = self.sym_dict(v)
        bk = self.box(s[3], k)
        if need:
            self.need(z3.Select(s[1], bk), "KeyError", node)
        if isinstance(s[4], (TList, TDict, TSet)):
            self.bump(v)
        self.write(v, ("s", self.dom_store(s[1], bk, False), s[2], s[3], s[4]))

    def dict_len(self, v):
        s = self.dct(v)
        return len(s[1]) if s[0] == "c" else self.card(s[1])

    def dict_keys(self, v):
        s = self.dct(v)
        if s[0] == "c":
            return VList(("c", list(s[1])))
        n, e = self.dict_enum(s)
        return VList(("s", n, self.sel(e), s[3], e))

    def dict_enum(self, s):
        c = self.st.d.get(("enum", id(s)))
        if c and c[0] is s and not self.pure:
            return c[1]
        r = self.enum(s[1])
        if not self.pure:
            self.set(self.st, ("enum", id(s)), (s, r))
        return r

    # ------------------------------------------------------------- sets
    def set_array(self, v, t=None):
        s = self.sset(v)
        if s[0] == "s":
            return s[1]
        dom = self.empty_dom(t.sort())
        for x in s[1]:
            dom = self.dom_store(dom, self.box(t, x), True)
        return dom

    def sym_set(self, v, t=None):
        s = self.sset(v)
        if s[0] == "s":
            return s
        for x in s[1]:
            t = self.join(t, self.type_of(x))
        if not self.complete(t):
            raise Unsupported("set of unknown type")
        return ("s", self.set_array(v, t), t)

    def set_has(self, v, x):
        s = self.sset(v)
        if s[0] == "c":
            return OR(*[self.eq(y, x) for y in s[1]])
        return z3.Select(s[1], self.box(s[2], x))

    def set_add(self, v, x, b=True):
        s = self.sym_set(v, self.type_of(x))
        self.write(v, ("s", self.dom_store(s[1], self.box(s[2], x), b), s[2]))

    # ------------------------------------------------------------- equality
    def eq(self, a, b):
        """Python == as bool / Bool term."""
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            raise Unsupported("comparison of a poisoned value")
        if a is b and not isinstance(a, VArr):
            return True
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, VOpt):
                return o.isnone
            return False
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            an, av = (a.isnone, a.value) if isinstance(a, VOpt) else (False, a)
            bn, bv = (b.isnone, b.value) if isinstance(b, VOpt) else (False, b)
            return OR(AND(an, bn), AND(NOT(an), NOT(bn), self.eq(av, bv)))
        pa, pb = not is_z3(a), not is_z3(b)
        if isinstance(a, (bool, int, float, Fraction, str)) and isinstance(b, (bool, int, float, Fraction, str)):
            return a == b
        num = lambda v: isinstance(v, (bool, int, float, Fraction)) or (is_z3(v) and v.sort() in (I, R, B))
        if num(a) and num(b):
            if (is_sort(a, B) or isinstance(a, bool)) and (is_sort(b, B) or isinstance(b, bool)):
                return zb(a) == zb(b)
            if is_sort(a, R) or is_sort(b, R) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
                return zr(a) == zr(b)
            a = z3.If(a, 1, 0) if is_sort(a, B) else zi(a)
            b = z3.If(b, 1, 0) if is_sort(b, B) else zi(b)
            return a == b
        sv = lambda v: isinstance(v, str) or is_sort(v, Str)
        if sv(a) and sv(b):
            return self.S(a) == self.S(b)
        if is_sort(a, PathS) and is_sort(b, PathS):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and AND(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            return a.term == b.term
        if isinstance(a, (VOpaque, VLib)) and isinstance(b, (VOpaque, VLib)):
            ta, tb = [x.term if isinstance(x, VOpaque) else z3.Const("lib:" + x.name, Obj) for x in (a, b)]
            return a.name == b.name if isinstance(a, VLib) and isinstance(b, VLib) else ta == tb
        if (num(a) and sv(b)) or (sv(a) and num(b)):
            return False
        if isinstance(a, VMeta) and isinstance(b, VMeta):
            return self.meta_val(a) == self.meta_val(b)
        if isinstance(a, VList) and isinstance(b, VList):
            la, lb = self.list_len(a), self.list_len(b)
            if isinstance(la, int) and isinstance(lb, int):
                return la == lb and AND(*[self.eq(self.list_get(a, i), self.list_get(b, i)) for i in range(la)])
            if isinstance(lb, int) and lb == 0:
                return la == 0
            if isinstance(la, int) and la == 0:
                return lb == 0
        if isinstance(a, VSet) and isinstance(b, VSet):
            sa = self.sym_set(a)
            sb = self.sym_set(b)
            return sa[1] == sb[1]
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or num(a) or num(b):
            if isinstance(a, (VObj, VList, VDict, VConf)) or isinstance(b, (VObj, VList, VDict, VConf)):
                return False
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def S(self, v):
        if isinstance(v, str):
            return lit(v)
        if is_sort(v, Str):
            return v
        raise Unsupported("string expected, got %s" % type(v).__name__)

    # ------------------------------------------------------------- heap references
    def init_heap(self):
        self.st.d.update({"Hvec": z3.Const("Hvec0", z3.ArraySort(I, Arr)), "Hmeta": z3.Const("Hmeta0", z3.ArraySort(I, MetaV)),
                          "alloc": z3.Int("alloc0")})
        self.fact(self.st.d["alloc"] >= 0)

    def new_ref(self):
        """Fresh address: not known to the caller, not used so far."""
        if self.pure:
            raise NeedFork()
        r = self.st.d["alloc"]
        self.set(self.st, "alloc", z3.simplify(r + 1))
        self.fact(z3.Not(client(r)))
        return r

    def vec_at(self, ref):
        return z3.Select(self.st.d["Hvec"], ref)

    def meta_val(self, m):
        return z3.Select(self.st.d["Hmeta"], m.ref)

    def arr_ref(self, v):
        """Heap reference of an array (allocating one when it has none)."""
        if v.ref is None:
            y, k = v.base, 0
            while y is not None and k < 20:
                if y[0].ref is not None:
                    raise Unsupported("reference to a part of an array")
                y, k = y[0].base, k + 1
            b = self.arr_box(v)
            r = self.new_ref()
            self.set(self.st, "Hvec", z3.Store(self.st.d["Hvec"], r, b))
            self.setattr_u(v, "ref", r)
        return v.ref

    def arr_from_ref(self, ref, nd=1, dtype="f"):
        v = self.arr_from_box(self.vec_at(ref), nd, dtype)
        v.ref = ref
        return v

    def new_meta(self, content):
        if len([f for f in self.pure if f["vars"]]) == 1 and self.pure[0].get("bulk"):
            b = self.pure[0]["bulk"]
            b["items"].append(content)
            return VMeta(b["base"] + (len(b["items"]) - 1) * b["n"] + b["j"])
        r = self.new_ref()
        self.set(self.st, "Hmeta", z3.Store(self.st.d["Hmeta"], r, content))
        return VMeta(r)

    def meta_of_dict(self, v):
        """Turn a python-level dict into an opaque metadata reference."""
        s = self.dct(v)
        if s[0] == "c" and not s[1]:
            return self.new_meta(z3.Const("EMPTYMETA", MetaV))
        t = self.type_of(v)
        fn = F("metaof_" + t.name, t.sort(), MetaV)
        return self.new_meta(fn(self.box(t, v)))
