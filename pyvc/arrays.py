"""numpy arrays (reals; NaN and overflow are not modelled)."""
from .lib import *
from .lib import _opt

iat1 = F("iat1", Arr, I, I)
bat1 = F("bat1", Arr, I, B)
SORTS = {"f": R, "i": I, "b": B}


class ArraysMixin:
    strict_cast = False      # treat float conversions as changing the value

    def init_arrays(self):
        c, i, k = z3.Const("c", Arr), z3.Int("i"), z3.Int("k")
        self.raw_fact(forall([c, i, k], adim(arow(c, i), k) == adim(c, k + 1), adim(arow(c, i), k)))
        self.raw_fact(forall([c, k], adim(c, k) >= 0, adim(c, k)))
        self.raw_fact(forall([c], anorm(c) >= 0, anorm(c)))

    def dist_axioms(self):
        """Definitions of cosine similarity and Euclidean distance (needed once code computes norms itself)."""
        if ("mem", "distdef") in self.st.d:
            return
        self.set(self.st, ("mem", "distdef"), True)
        c, d = z3.Const("c", Arr), z3.Const("d", Arr)
        self.raw_fact(forall([c, d], adot(c, d) == adot(d, c), adot(c, d)))
        cs = F("cossim", Arr, Arr, R)
        self.raw_fact(forall([c, d], cs(c, d) == z3.If(z3.Or(anorm(c) == 0, anorm(d) == 0), z3.RealVal(0),
                                                       adot(c, d) / (anorm(c) * anorm(d))), cs(c, d)))
        ed, sub = F("eucdist", Arr, Arr, R), F("asub", Arr, Arr, Arr)
        self.raw_fact(forall([c, d], ed(c, d) == anorm(sub(c, d)), ed(c, d)))
        self.raw_fact(forall([c, d], ed(c, d) == ed(d, c), ed(c, d)))
        self.raw_fact(forall([c, d], anorm(sub(c, d)) == anorm(sub(d, c)), sub(c, d)))

    # ---- construction
    def at(self, dt):
        return {"f": at1, "i": iat1, "b": bat1}[dt]

    def arr_from_box(self, c, nd, dtype="f", dims=None):
        A = self.at(dtype)
        shape = list(dims) if dims is not None else [z3.simplify(adim(c, k)) for k in range(nd)]
        if dims is None:
            for k in range(nd):
                self.fact(adim(c, k) >= 0)

        def elem(*ix):
            x = c
            for i in ix[:-1]:
                x = arow(x, zi(i))
            return A(x, zi(ix[-1]))
        rows = (lambda i: arow(c, zi(i))) if nd >= 2 else None
        return VArr(shape, elem, dtype, c, rows)

    def fresh_mat(self, nd, dtype="f", name="A", dims=None):
        c = self.fresh(name, Arr)
        v = self.arr_from_box(c, nd, dtype)
        if dims is not None:
            for a, b in zip(v.d["s"][0], dims):
                self.fact(a == zi(b))
            s = v.d["s"]
            v.d["s"] = (list(dims), s[1], s[2], s[3], s[4])
        return v

    def arr_box(self, v):
        s = v.d["s"]
        if v.ref is not None and s[3] is None:
            return self.vec_at(v.ref)
        if s[3] is not None:
            return s[3]
        shape, elem, dt, _, rows = s
        c = self.fresh("abox", Arr)
        for k, n in enumerate(shape):
            self.fact(adim(c, k) == zi(n))
        vs = [z3.Int("b!%d" % k) for k in range(len(shape))]
        self.nf += 1
        if vs:
            rng = z3.And(*[z3.And(0 <= x, x < zi(n)) for x, n in zip(vs, shape)])
            if rows is not None and len(shape) == 2:
                self.fact(forall(vs[0], IMP(z3.And(0 <= vs[0], vs[0] < zi(shape[0])), arow(c, vs[0]) == rows(vs[0])), arow(c, vs[0])))
            else:
                x = c
                for y in vs[:-1]:
                    x = arow(x, y)
                lhs = self.at(dt)(x, vs[-1])
                self.fact(forall(vs, IMP(rng, lhs == self.scal(elem(*vs), dt)), lhs))
        nv = (shape, elem, dt, c, rows)
        if not self.pure:
            self.undo.append((v, "s", v.d["s"]))
            v.d["s"] = nv
        return c

    def scal(self, x, dt):
        return {"f": zr, "i": zi, "b": zb}[dt](x) if not (dt == "i" and is_sort(x, R)) else z3.ToInt(x)

    # ---- attributes, indexing
    def arr_attr(self, v, name, node=None):
        s = v.d["s"]
        if name == "shape":
            return tuple(s[0])
        if name == "ndim":
            return len(s[0])
        if name == "size":
            r = 1
            for n in s[0]:
                r = self.arith("*", r, n)
            return r
        if name == "dtype":
            return VOpaque(z3.Const("dtype_" + s[2], Obj), "dtype")
        if name == "nbytes":
            n = F("nbytes", Arr, I)(self.arr_box(v))
            self.fact(n >= 0)
            return n
        if name == "T":
            if len(s[0]) == 1:
                return v
            r = VArr(s[0][::-1], lambda *ix: s[1](*ix[::-1]), s[2])
            if len(s[0]) == 2:
                r.transposed = (s, r.d["s"][1])
            r.base, r.mk = (v, ("T",)), (lambda: self.arr_attr(v, "T"))
            return r
        return VMethod(v, name)

    def arr_row(self, v, j):
        s = v.d["s"]
        if len(s[0]) == 1:
            return s[1](j)
        if v.base is not None and v.base[1] == ("reshape",) and len(v.base[0].d["s"][0]) == 1 and isinstance(s[0][0], int) and s[0][0] == 1:
            return v.base[0]
        box = s[4](j) if s[4] is not None else (arow(s[3], zi(j)) if s[3] is not None else None)
        rows = None
        if len(s[0]) == 3 and box is not None:
            rows = lambda i: arow(box, zi(i))
        r = VArr(s[0][1:], lambda *ix: s[1](j, *ix), s[2], box, rows)
        if v.ref is not None:
            r.ref = rowref(v.ref, zi(j)) if not v.wver else F("rowref_%d" % v.wver, I, I, I)(v.ref, zi(j))
            self.fact(client(r.ref) == client(v.ref))
            self.fact(self.vec_at(r.ref) == box)
            self.fact(r.ref < self.st.d["alloc"])
        r.base, r.mk = (v, j), (lambda: self.arr_row(v, j))
        return r

    def arr_iter(self, v):
        s = v.d["s"]
        if not s[0]:
            self.implicit_raise("TypeError", "iteration over a 0-d array")
        return VIter(s[0][0], lambda j: self.arr_row(v, j), kind="array")

    def arr_getitem(self, v, ix, node):
        s = v.d["s"]
        if isinstance(ix, VOpt):
            ix = self.unopt(ix, node)
        if isinstance(ix, (int,)) or is_sort(ix, I):
            return self.arr_row(v, self.index(ix, s[0][0], node))
        if ix is Ellipsis or isinstance(ix, tuple) and len(ix) == 1 and ix[0] is Ellipsis:
            return v
        if isinstance(ix, slice):
            ix = (ix,)
        if ix is None:
            ix = (None,)
        if isinstance(ix, tuple):
            return self.arr_multi(v, ix, node)
        if isinstance(ix, VArr):
            t = ix.d["s"]
            if t[2] == "i":
                sh = t[0] + s[0][1:]
                k = len(t[0])
                self.arr_all(ix, lambda x: z3.And(x >= -zi(s[0][0]), x < zi(s[0][0])), "IndexError", node)
                nn = self.arr_all_known(ix, lambda x: x >= 0)
                fix = (lambda x: x) if nn else (lambda x: z3.If(x < 0, x + zi(s[0][0]), x))
                rows = None
                if k == 1 and s[4] is not None:
                    rows = lambda i: s[4](fix(t[1](i)))
                return VArr(sh, lambda *i: s[1](fix(t[1](*i[:k])), *i[k:]), s[2], None, rows)
            if t[2] == "b":
                return self.arr_mask(v, ix, node)
        if isinstance(ix, VList):
            return self.arr_getitem(v, self.lib_numpy_array([ix], {}, node), node)
        raise Unsupported("array index (line %s)" % getattr(node, "lineno", "?"))

    def arr_all(self, a, p, exc, node):
        t = a.d["s"]
        vs = [z3.Int("x!ai%d" % k) for k in range(len(t[0]))]
        rng = AND(*[z3.And(0 <= x, x < zi(n)) for x, n in zip(vs, t[0])])
        g = z3.ForAll(vs, IMP(rng, p(t[1](*vs)))) if vs else p(t[1]())
        if self.prove(self.close(zb(g))):
            return
        self.need(g, exc, node)

    def arr_all_known(self, a, p):
        t = a.d["s"]
        vs = [z3.Int("x!ai%d" % k) for k in range(len(t[0]))]
        rng = AND(*[z3.And(0 <= x, x < zi(n)) for x, n in zip(vs, t[0])])
        g = z3.ForAll(vs, IMP(rng, p(t[1](*vs)))) if vs else p(t[1]())
        return self.prove(self.close(zb(g)))

    def arr_multi(self, v, ix, node):
        """Basic indexing with integers, slices, None."""
        s = v.d["s"]
        if any(isinstance(i, (VArr, VList)) for i in ix):
            return self.arr_fancy(v, ix, node)
        shape, plan, d = [], [], 0
        for i in ix:
            i = self.unopt(i, node)
            if i is None:
                shape.append(1)
                plan.append(("new",))
            elif isinstance(i, slice):
                n = s[0][d]
                if i.step not in (None, 1):
                    raise Unsupported("array slice step")
                lo, hi = self.clamp(self.unopt(i.start), n, 0), self.clamp(self.unopt(i.stop), n, n)
                if isinstance(lo, int) and isinstance(hi, int):
                    ln = max(0, hi - lo)
                elif isinstance(lo, int) and lo == 0:
                    ln = hi
                else:
                    ln = z3.simplify(z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), z3.IntVal(0)))
                shape.append(ln)
                plan.append(("sl", lo))
                d += 1
            else:
                plan.append(("ix", self.index(i, s[0][d], node)))
                d += 1
        while d < len(s[0]):
            shape.append(s[0][d])
            plan.append(("sl", 0))
            d += 1

        def elem(*js):
            js, out, k = list(js), [], 0
            for p in plan:
                if p[0] == "new":
                    k += 1
                elif p[0] == "sl":
                    out.append(js[k] if isinstance(p[1], int) and p[1] == 0 else z3.simplify(zi(js[k]) + zi(p[1])))
                    k += 1
                else:
                    out.append(p[1])
            return s[1](*out)
        if not shape:
            return elem()
        box, rows = None, None
        if all(p[0] == "sl" and isinstance(p[1], int) and p[1] == 0 and (shape[k] is s[0][k]) for k, p in enumerate(plan)):
            return v            # all of it: the same memory
        elif len(plan) == 2 and plan[0][0] == "ix" and plan[1][0] == "sl" and isinstance(plan[1][1], int) and plan[1][1] == 0 and shape[0] is s[0][1]:
            return self.arr_row(v, plan[0][1])
        elif len(plan) == 1 and plan[0][0] == "sl" and len(s[0]) == 1 and s[3] is not None and s[2] == "f":
            box = F("aslice", Arr, I, I, Arr)(s[3], zi(plan[0][1]), zi(shape[0]))
            self.slice_axioms()
        elif len(plan) == 2 and plan[0] == ("new",) and plan[1][0] == "sl" and isinstance(plan[1][1], int) and plan[1][1] == 0 and len(s[0]) == 1:
            bx = s[3]
            if bx is None:
                bx = self.arr_box(v)
            rows = lambda i: bx
        elif len(plan) == 2 and plan[0][0] == "sl" and plan[1][0] == "sl" and s[4] is not None and shape[1] is s[0][1]:
            lo = plan[0][1]
            r0 = s[4]
            rows = lambda i: r0(z3.simplify(zi(i) + zi(lo)))
        elif len(plan) == 2 and plan[0][0] == "sl" and plan[1][0] == "sl" and s[4] is not None and s[2] == "f":
            lo, l1, n1, r0 = plan[0][1], plan[1][1], shape[1], s[4]
            self.slice_axioms()
            rows = lambda i: F("aslice", Arr, I, I, Arr)(r0(z3.simplify(zi(i) + zi(lo))), zi(l1), zi(n1))
        r = VArr(shape, elem, s[2], box, rows)
        r.base, r.mk = (v, ix), (lambda: self.arr_multi(v, ix, node))
        return r

    def slice_axioms(self):
        if ("mem", "aslice") in self.st.d:
            return
        self.set(self.st, ("mem", "aslice"), True)
        c, a, n, k = z3.Const("c", Arr), z3.Int("a"), z3.Int("n"), z3.Int("k")
        t = F("aslice", Arr, I, I, Arr)(c, a, n)
        self.raw_fact(forall([c, a, n, k], IMP(z3.And(0 <= k, k < n), at1(t, k) == at1(c, a + k)), at1(t, k)))
        self.raw_fact(forall([c, a, n], IMP(n >= 0, adim(t, 0) == n), t))

    def arr_fancy(self, v, ix, node):
        """a[arr, j] / a[arr1, arr2] / a[:, arr] patterns."""
        s = v.d["s"]
        ix = [self.lib_numpy_array([i], {}, node) if isinstance(i, VList) else i for i in ix]
        arrs = [i for i in ix if isinstance(i, VArr)]
        if all(not isinstance(i, slice) and i is not None for i in ix) and all(len(a.d["s"][0]) == 1 and a.d["s"][2] == "i" for a in arrs):
            n = arrs[0].d["s"][0][0]
            for k, a in enumerate(ix):
                if isinstance(a, VArr):
                    self.arr_all(a, lambda x: z3.And(x >= 0, x < zi(s[0][k])), "IndexError", node)
            full = [(lambda j, a=a: a.d["s"][1](j)) if isinstance(a, VArr) else (lambda j, a=a: a) for a in ix]
            return VArr([n] + s[0][len(ix):], lambda j, *r: s[1](*[f(j) for f in full], *r), s[2])
        if len(ix) == 2 and isinstance(ix[0], slice) and ix[0] == slice(None, None, None) and len(arrs) == 1:
            a = arrs[0].d["s"]
            self.arr_all(arrs[0], lambda x: z3.And(x >= 0, x < zi(s[0][1])), "IndexError", node)
            return VArr([s[0][0], a[0][0]], lambda i, j: s[1](i, a[1](j)), s[2])
        raise Unsupported("fancy indexing (line %s)" % getattr(node, "lineno", "?"))

    def arr_mask(self, v, m, node):
        """Boolean mask selection along axis 0: order preserving."""
        s, t = v.d["s"], m.d["s"]
        n = zi(s[0][0])
        self.nf += 1
        j = z3.Int("j!mk%d" % self.nf)
        c = t[1](j)
        cnt = self.fresh("mlen", I)
        src, inv = self.fresh("msrc", z3.ArraySort(I, I)), self.fresh("minv", z3.ArraySort(I, I))
        a, b = z3.Int("a!m"), z3.Int("b!m")
        sa = z3.Select(src, a)
        sub = lambda e, k: z3.substitute(zb(e), (j, k))
        self.fact(z3.And(cnt >= 0, cnt <= n))
        self.fact(forall(a, IMP(z3.And(0 <= a, a < cnt), z3.And(0 <= sa, sa < n, sub(c, sa), z3.Select(inv, sa) == a)), sa))
        self.fact(forall([a, b], IMP(z3.And(0 <= a, a < b, b < cnt), sa < z3.Select(src, b)), (sa, z3.Select(src, b))))
        ij = z3.Select(inv, j)
        self.fact(forall(j, IMP(z3.And(0 <= j, j < n, c), z3.And(0 <= ij, ij < cnt, z3.Select(src, ij) == j)), ij))
        rows = (lambda i: s[4](z3.Select(src, zi(i)))) if s[4] is not None else None
        r = VArr([cnt] + s[0][1:], lambda i, *k: s[1](z3.Select(src, zi(i)), *k), s[2], None, rows)
        r.mask = (src, inv, cnt)
        return r

    def arr_setitem(self, v, ix, x, node):
        s = v.d["s"]
        if v.shared:
            raise Unsupported("write to a shared array")
        if self.pure:
            raise NeedFork()
        if v.base is not None:
            # view: write through to the base array
            base, bix = v.base
            return self.arr_setitem_view(base, bix, ix, x, node)
        if isinstance(ix, VArr) and ix.d["s"][2] == "b":
            m = ix.d["s"][1]
            k = len(ix.d["s"][0])
            xv = self.bcast_elem(x)
            ne = lambda *j: z3.If(zb(m(*j[:k])), self.scal(xv(*j), s[2]), s[1](*j))
            return self.arr_write(v, ne)
        if not isinstance(ix, tuple):
            ix = (ix,)
        conds, out_ax, d = [], [], 0
        for i in ix:
            i = self.unopt(i, node)
            if isinstance(i, slice):
                n = s[0][d]
                lo, hi = self.clamp(self.unopt(i.start), n, 0), self.clamp(self.unopt(i.stop), n, n)
                conds.append((d, "sl", lo, hi))
                out_ax.append((d, lo))
            elif isinstance(i, VArr):
                raise Unsupported("fancy assignment (line %s)" % getattr(node, "lineno", "?"))
            else:
                conds.append((d, "ix", self.index(i, s[0][d], node), None))
            d += 1
        while d < len(s[0]):
            out_ax.append((d, 0))
            d += 1
        xv = self.bcast_elem(x, len(out_ax))
        old = s[1]

        def elem(*j):
            c = []
            for dd, kind, a, b in conds:
                if kind == "ix":
                    c.append(zi(j[dd]) == zi(a))
                else:
                    if not (isinstance(a, int) and a == 0):
                        c.append(zi(j[dd]) >= zi(a))
                    if b is not s[0][dd]:
                        c.append(zi(j[dd]) < zi(b))
            val = self.scal(xv(*[zi(j[dd]) - zi(lo) if not (isinstance(lo, int) and lo == 0) else j[dd] for dd, lo in out_ax]), s[2])
            return ITE(zb(AND(*c)), val, self.scal(old(*j), s[2]))
        if getattr(v, "width", None):
            x_ = self.as_arr(x) if not isinstance(x, VArr) else x
            self.check_width(v.width, x_.d["s"][0], x_.d["s"][1], node)
        self.arr_write(v, elem)

    def arr_setitem_view(self, base, bix, ix, x, node):
        if isinstance(bix, tuple):
            raise Unsupported("write through a slice view (line %s)" % getattr(node, "lineno", "?"))
        return self.arr_setitem(base, (bix,) + (ix if isinstance(ix, tuple) else (ix,)), x, node)

    def bcast_elem(self, x, nd=None):
        if isinstance(x, VList) or isinstance(x, tuple):
            x = self.lib_numpy_array([x], {}, None)
        if isinstance(x, VArr):
            t = x.d["s"]
            k = len(t[0])

            def f(*j):
                jj = j[len(j) - k:] if k else ()
                return t[1](*[0 if (isinstance(n, int) and n == 1) else y for n, y in zip(t[0], jj)])
            return f
        x = self.unopt(x)
        return lambda *j: x

    int_width = False        # obligations: stored values fit the array's integer type

    def width_of(self, d):
        n = d.name.split(".")[-1] if isinstance(d, VLib) else d if isinstance(d, str) else ""
        w = {"int8": 7, "int16": 15, "int32": 31, "uint8": 8, "uint16": 16, "uint32": 32}.get(n)
        return None if w is None else (n, 0 if n[0] == "u" else -2 ** w, 2 ** w - 1)

    def check_width(self, w, shape, elem, node=None):
        """The values elem(i...) (under the shape) are representable in the integer type w."""
        if w is None or not self.int_width or self.pure:
            return
        vs = [self.fresh("w", I) for _ in shape]
        x = elem(*vs)
        if isinstance(x, bool) or is_sort(x, B):
            return
        x = x if is_sort(x, R) or is_sort(x, I) else zi(x)
        rng = z3.And(*[z3.And(0 <= y, y < zi(n)) for y, n in zip(vs, shape)]) if vs else z3.BoolVal(True)
        self.check("values fit the integer type %s" % w[0], IMP(rng, z3.And(x >= w[1], x <= w[2])), "line %s" % getattr(node, "lineno", "?"))

    def arr_write(self, v, elem, box=None, rows=None):
        s = v.d["s"]
        ref = v.ref
        self.set(v, "s", (s[0], elem, s[2], box, rows))
        if ref is not None:
            self.setattr_u(v, "ref", None)          # (the content is the one just written)
            b = self.arr_box(v)
            self.setattr_u(v, "ref", ref)
            self.set(self.st, "Hvec", z3.Store(self.st.d["Hvec"], ref, b))
        self.setattr_u(v, "wver", v.wver + 1)
        self.refresh_views(v)

    def refresh_views(self, v):
        """Views of an array just written, and other names of its address, show the new contents."""
        seen = set()
        for fr in self.frames:
            for x in list(fr.env.d.values()):
                if not isinstance(x, VArr) or x is v or id(x) in seen:
                    continue
                seen.add(id(x))
                y, k = x, 0
                while isinstance(y, VArr) and y is not v and y.base is not None and k < 20:
                    y, k = y.base[0], k + 1
                if y is v:
                    if x.mk is None or x.base[0] is not v:
                        raise Unsupported("write to an array with views in use")
                    ref = x.ref
                    n = x.mk()
                    self.set(x, "s", n.d["s"])
                elif v.ref is not None and x.ref is not None and len(x.d["s"][0]) == 1 and x.d["s"][2] == "f":
                    n = self.arr_from_box(self.vec_at(x.ref), 1)
                    self.set(x, "s", n.d["s"])

    def inplace(self, op, cur, v, node):
        """x op= v on an array: the array itself changes."""
        if self.pure:
            raise NeedFork()
        n = self.binop(op, cur, v, node)
        s = cur.d["s"]
        if not isinstance(n, VArr):
            raise Unsupported("in-place operation")
        t = n.d["s"]
        if len(t[0]) != len(s[0]):
            self.implicit_raise("ValueError", "non-broadcastable output", node)
        for a, b in zip(t[0], s[0]):
            if a is not b:
                self.need(zi(a) == zi(b), "ValueError", node)
        if s[2] != "f" and t[2] == "f":
            self.implicit_raise("TypeError", "cannot cast the result of the in-place operation", node)
        if s[2] == "b" and t[2] == "i":
            self.implicit_raise("TypeError", "cannot cast the result of the in-place operation", node)
        if cur.shared:
            raise Unsupported("write to a shared array")
        if cur.base is not None or getattr(cur, "width", None):
            self.arr_setitem(cur, tuple(slice(None, None, None) for _ in s[0]), n, node)
        else:
            self.arr_write(cur, (lambda *i: self.scal(t[1](*i), s[2])) if t[2] != s[2] else t[1], t[3], t[4])
        return cur

    # ---- elementwise operations
    def arr_map(self, f, v, dtype=None, op=None):
        s = v.d["s"]
        box = None
        if op and s[3] is not None and s[2] == "f" and dtype in (None, "f"):
            pass
        return VArr(s[0], lambda *i: f(s[1](*i)), dtype or s[2], box)

    def bshape(self, a, b, node=None):
        """Broadcast two shapes (unit dimensions only when syntactically 1)."""
        out = []
        la, lb = list(a), list(b)
        while len(la) < len(lb):
            la.insert(0, 1)
        while len(lb) < len(la):
            lb.insert(0, 1)
        for x, y in zip(la, lb):
            if isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            elif isinstance(x, int) and isinstance(y, int):
                if x != y:
                    self.implicit_raise("ValueError", "broadcast", node)
                out.append(x)
            elif is_z3(x) and is_z3(y) and x.eq(y):
                out.append(x)
            else:
                # numpy also broadcasts a dimension that happens to be 1
                if not self.pure:
                    if not self.prove(zi(x) == zi(y)) and not self.branch(zi(x) == zi(y)):
                        if not self.branch(z3.Or(zi(x) == 1, zi(y) == 1)):
                            self.implicit_raise("ValueError", "shapes do not match", node)
                        self.later()
                        raise Unsupported("broadcast of a runtime unit dimension")
                else:
                    self.need(zi(x) == zi(y), "ValueError", node)
                out.append(x)
        return out

    def arr_binop(self, op, a, b, node=None):
        xa, xb = isinstance(a, VArr), isinstance(b, VArr)
        if op == "@":
            return self.lib_numpy_dot([a, b], {}, node)
        if not xa and isinstance(a, (VList, tuple)):
            a, xa = self.lib_numpy_array([a], {}, node), True
        if not xb and isinstance(b, (VList, tuple)):
            b, xb = self.lib_numpy_array([b], {}, node), True
        sa = a.d["s"] if xa else None
        sb = b.d["s"] if xb else None
        shape = self.bshape(sa[0] if xa else [], sb[0] if xb else [], node)
        fa, fb = self.bcast_elem(a), self.bcast_elem(b)
        na, nb = (len(sa[0]) if xa else 0), (len(sb[0]) if xb else 0)
        saved, self.npfloat = self.npfloat, True

        def elem(*i):
            sv, self.npfloat = self.npfloat, True
            try:
                x, y = fa(*i), fb(*i)
                if op in ("&", "|") and (is_sort(x, B) or isinstance(x, bool)):
                    return AND(x, y) if op == "&" else OR(x, y)
                return self.arith_np(op, x, y)
            finally:
                self.npfloat = sv
        self.npfloat = saved
        da = sa[2] if xa else self.dt_of(a)
        db = sb[2] if xb else self.dt_of(b)
        dt = "f" if op == "/" or "f" in (da, db) else ("b" if da == db == "b" and op in "&|^" else "i")
        box = rows = None
        nm = {"-": "asub", "+": "aadd", "*": "amul", "/": "adiv"}.get(op)
        if nm and xa and xb and da == db == "f":
            fn = F(nm, Arr, Arr, Arr)
            if na == nb == 1 and sa[3] is not None and sb[3] is not None:
                box = fn(sa[3], sb[3])
                self.op_axioms(nm, op)
            elif len(shape) == 2 and (na == 1 or sa[4] is not None) and (nb == 1 or sb[4] is not None):
                ba = sa[3] if na == 1 else None
                bb = sb[3] if nb == 1 else None
                if not (na == 1 and ba is None) and not (nb == 1 and bb is None):
                    one = lambda s, i: 0 if isinstance(s[0][0], int) and s[0][0] == 1 else i
                    rows = lambda i: fn(ba if ba is not None else sa[4](one(sa, i)), bb if bb is not None else sb[4](one(sb, i)))
                    self.op_axioms(nm, op)
        elif nm and da == "f" and xa and not xb and na == 1 and sa[3] is not None:
            box = F(nm + "_s", Arr, R, Arr)(sa[3], zr(b))
            self.op_axioms(nm + "_s", op)
        elif nm and da == "f" and xa and not xb and na == 2 and sa[4] is not None:
            rows = lambda i: F(nm + "_s", Arr, R, Arr)(sa[4](i), zr(b))
            self.op_axioms(nm + "_s", op)
        return VArr(shape, elem, dt, box, rows)

    def dt_of(self, x):
        if isinstance(x, bool) or is_sort(x, B):
            return "b"
        return "i" if isinstance(x, int) or is_sort(x, I) else "f"

    def arith_np(self, op, x, y):
        if op == "/":
            x, y = zr(x), zr(y)
            return x / y
        return self.arith(op, x, y)

    def op_axioms(self, nm, op):
        if ("mem", nm) in self.st.d:
            return
        self.set(self.st, ("mem", nm), True)
        c, d, k, x = z3.Const("c", Arr), z3.Const("d", Arr), z3.Int("k"), z3.Const("x", R)
        if nm.endswith("_s"):
            t = F(nm, Arr, R, Arr)(c, x)
            self.raw_fact(forall([c, x, k], at1(t, k) == self.arith_np(op, at1(c, k), x), at1(t, k)))
            self.raw_fact(forall([c, x], adim(t, 0) == adim(c, 0), t))
        else:
            t = F(nm, Arr, Arr, Arr)(c, d)
            self.raw_fact(forall([c, d, k], at1(t, k) == self.arith_np(op, at1(c, k), at1(d, k)), at1(t, k)))
            self.raw_fact(forall([c, d], adim(t, 0) == adim(c, 0), t))

    def arr_compare(self, op, a, b):
        xa, xb = isinstance(a, VArr), isinstance(b, VArr)
        if (xa and (b is None or isstr(b))) or (xb and (a is None or isstr(a))):
            return op == "!="
        shape = self.bshape(a.d["s"][0] if xa else [], b.d["s"][0] if xb else [])
        fa, fb = self.bcast_elem(a), self.bcast_elem(b)

        def elem(*i):
            x, y = fa(*i), fb(*i)
            if op == "==":
                return self.eq(x, y)
            if op == "!=":
                return NOT(self.eq(x, y))
            return self.compare({"<": ast.Lt(), "<=": ast.LtE(), ">": ast.Gt(), ">=": ast.GtE()}[op], x, y)
        return VArr(shape, elem, "b")

    # ---- methods
    def arr_method(self, v, name, args, kw, node):
        s = v.d["s"]
        if name == "copy":
            r = VArr(s[0], s[1], s[2], s[3], s[4])
            if v.ref is not None and s[3] is None:
                r.d["s"] = (s[0], s[1], s[2], self.arr_box(v), s[4])
            return r
        if name == "astype":
            cp = kw.get("copy", True)
            if cp is not True and not isinstance(cp, bool):
                raise Unsupported("astype with a computed copy argument")
            if cp is False:
                return self.maybe_same(v, self.arr_method(v, "astype", args, {k: x for k, x in kw.items() if k != "copy"}, node))
            dt = self.dtype_arg(args[0] if args else kw.get("dtype"))
            if self.strict_cast and dt == s[2] == "f" and len(s[0]) == 1:
                d = args[0] if args else kw.get("dtype")
                if not isinstance(d, VOpaque):
                    return self.arr_from_box(F("acast_" + (d.name.split(".")[-1] if isinstance(d, VLib) else str(d)), Arr, Arr)(self.arr_box(v)), 1, "f")
            w = self.width_of(args[0] if args else kw.get("dtype")) if self.int_width else None
            if w:
                self.check_width(w, s[0], s[1], node)
            if dt == s[2] or dt is None:
                r = VArr(s[0], s[1], s[2], s[3], s[4])
                r.width = w
                return r
            if dt == "i" and s[2] == "f":
                return VArr(s[0], lambda *i: self.lib_builtins_int([s[1](*i)], {}, node), "i")
            if dt == "f":
                return VArr(s[0], lambda *i: zr(s[1](*i)), "f")
            if dt == "i":
                return VArr(s[0], lambda *i: z3.If(zb(s[1](*i)), z3.IntVal(1), z3.IntVal(0)), "i")
            if dt == "b":
                return VArr(s[0], lambda *i: s[1](*i) != 0, "b")
        if name == "tolist":
            if len(s[0]) == 1:
                return self.iter_to_list(self.arr_iter(v))
            raise Unsupported("tolist of a matrix")
        if name == "item":
            return s[1](*([0] * len(s[0])))
        if name == "reshape":
            return self.arr_reshape(v, args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args), node)
        if name == "flatten":
            return self.arr_method(self.arr_reshape(v, (-1,), node), "copy", [], {}, node)
        if name == "ravel":
            return self.arr_reshape(v, (-1,), node)
        m = getattr(self, "lib_numpy_" + name, None)
        if m is not None and name in ("dot", "min", "max", "mean", "sum", "std", "var", "argsort", "argmin", "argmax", "any", "all", "clip", "round", "transpose"):
            return m([v] + list(args), kw, node)
        raise Unsupported("array method %s (line %s)" % (name, getattr(node, "lineno", "?")))

    def maybe_same(self, v, r):
        """numpy returns the array itself when no conversion is needed: either is possible."""
        if r.d["s"][2] != v.d["s"][2]:
            return r
        if self.pure:
            raise NeedFork()
        return v if self.choose(2) else r

    def dtype_arg(self, d):
        if d is None:
            return None
        n = d.name.split(".")[-1] if isinstance(d, VLib) else d if isinstance(d, str) else None
        if n is None:
            if isinstance(d, VOpaque) and d.kind == "dtype":
                return str(d.term)[-1]
            raise Unsupported("dtype")
        if n.startswith("float") or n == "double":
            return "f"
        if n.startswith("uint") or n.startswith("int"):
            return "i"
        if n.startswith("bool"):
            return "b"
        raise Unsupported("dtype " + n)

    def arr_reshape(self, v, shape, node):
        s = v.d["s"]
        if len(s[0]) == 1 and len(shape) == 2 and shape[0] == 1:
            bx = self.arr_box(v) if s[2] == "f" else None
            r = VArr([1, s[0][0]], lambda i, j: s[1](j), s[2], None, (lambda i: bx) if bx is not None else None)
            r.base, r.mk = (v, ("reshape",)), (lambda: self.arr_reshape(v, shape, node))
            return r
        if len(s[0]) == 1 and tuple(shape) == (-1,):
            return v
        if len(s[0]) == 1 and len(shape) == 2 and shape[1] == 1:
            r = VArr([s[0][0], 1], lambda i, j: s[1](i), s[2])
            r.base, r.mk = (v, ("reshape",)), (lambda: self.arr_reshape(v, shape, node))
            return r
        if len(s[0]) == 2 and tuple(shape) == (-1,) and isinstance(s[0][0], int) and s[0][0] == 1:
            return self.arr_row(v, 0)
        if len(shape) == len(s[0]) and all((x is y) or (is_z3(x) and is_z3(y) and x.eq(y)) or (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(shape, s[0])):
            return v
        raise Unsupported("reshape (line %s)" % getattr(node, "lineno", "?"))

    # ---- numpy functions
    def as_arr(self, v, node=None):
        v = self.unopt(v, node)
        if isinstance(v, VArr):
            return v
        if isinstance(v, (VList, tuple)):
            return self.lib_numpy_array([v], {}, node)
        if isnum(v):
            return VArr([], lambda: v, self.dt_of(v))
        raise Unsupported("array from %s" % type(v).__name__)

    def lib_numpy_array(self, args, kw, node):
        v = self.unopt(args[0], node)
        dt = self.dtype_arg(_opt(kw, args, 1, "dtype"))
        if isinstance(v, VArr):
            cp = kw.get("copy", True)
            if cp is not True:
                if cp is not None and not isinstance(cp, bool):
                    raise Unsupported("array with a computed copy argument")
                return self.maybe_same(v, self.lib_numpy_array(args, {k: x for k, x in kw.items() if k != "copy"}, node))
            r = self.arr_method(v, "copy", [], {}, node)
            return self.arr_method(r, "astype", [VLib({"f": "float64", "i": "int64", "b": "bool"}[dt])], {}, node) if dt else r
        if isinstance(v, (tuple,)):
            v = VList(("c", list(v)))
        if isinstance(v, VIter):
            v = self.iter_to_list(v)
        if isinstance(v, VList):
            s = self.lst(v)
            if s[0] == "c":
                vals = s[1]
                if not vals:
                    return VArr([0], lambda *i: z3.RealVal(0), dt or "f")
                if all(isnum(self.unopt(x)) for x in vals):
                    d = dt or ("f" if any(self.dt_of(x) == "f" for x in vals) else self.dt_of(vals[0]))
                    def elem(i):
                        if isinstance(i, int):
                            return self.scal(vals[i], d)
                        r = self.scal(vals[-1], d)
                        for k in range(len(vals) - 2, -1, -1):
                            r = z3.If(zi(i) == k, self.scal(vals[k], d), r)
                        return r
                    return VArr([len(vals)], elem, d)
                subs = [self.as_arr(x, node) for x in vals]
                sh = subs[0].d["s"][0]
                if len(subs) > 1:
                    raise Unsupported("array of several arrays")
                b = self.arr_box(subs[0]) if len(sh) == 1 and subs[0].d["s"][2] == "f" else None
                return VArr([1] + list(sh), lambda i, *k: subs[0].d["s"][1](*k), subs[0].d["s"][2], None, (lambda i: b) if b is not None else None)
            t, n, at = s[3], s[1], s[2]
            if t in (TInt, TReal, TBool):
                d = dt or {"Int": "i", "Real": "f", "Bool": "b"}[t.name]
                return VArr([n], lambda i: self.scal(at(zi(i)), d), d)
            if t == TArr:
                rows = lambda i: self.vec_at_static(at(zi(i)))
                H = self.st.d["Hvec"]
                rows = lambda i: z3.Select(H, at(zi(i)))
                dim = adim(rows(0), 0)
                # rows of equal length assumed (vectors of one dimension)
                self.fact(IMP(n > 0, dim >= 0))
                return VArr([n, dim], lambda i, j: at1(rows(i), zi(j)), "f", None, rows)
            if isinstance(t, TMat):
                rows = lambda i: at(zi(i))
                dims = [adim(rows(0), k) for k in range(t.nd)]
                def elem(i, *js):
                    x = rows(i)
                    for j in js[:-1]:
                        x = arow(x, zi(j))
                    return self.at(t.dtype)(x, zi(js[-1]))
                return VArr([n] + dims, elem, t.dtype, None, rows)
        raise Unsupported("np.array of %s (line %s)" % (type(v).__name__, getattr(node, "lineno", "?")))

    def vec_at_static(self, r):
        return self.vec_at(r)

    def lib_numpy_asarray(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, VArr):
            dt = self.dtype_arg(_opt(kw, args, 1, "dtype"))
            if set(kw) - {"dtype"}:
                raise Unsupported("asarray options")
            if dt is None:
                return v
            return self.maybe_same(v, self.lib_numpy_array(args, kw, node))
        return self.lib_numpy_array(args, kw, node)

    def shape_arg(self, v, node):
        v = self.unopt(v, node)
        if isinstance(v, tuple):
            return [self.unopt(x) for x in v]
        return [v]

    def lib_numpy_zeros(self, args, kw, node, val=0):
        dt = self.dtype_arg(_opt(kw, args, 1, "dtype")) or "f"
        x = self.scal(val, dt) if dt != "b" else z3.BoolVal(bool(val))
        r = VArr(self.shape_arg(args[0], node), lambda *i: x, dt)
        r.width = self.width_of(_opt(kw, args, 1, "dtype"))
        return r

    def lib_numpy_ones(self, args, kw, node):
        return self.lib_numpy_zeros(args, kw, node, 1)

    def lib_numpy_empty(self, args, kw, node):
        dt = self.dtype_arg(_opt(kw, args, 1, "dtype")) or "f"
        sh = self.shape_arg(args[0], node)
        return self.fresh_mat(len(sh), dt, "empty", dims=sh)

    def lib_numpy_zeros_like(self, args, kw, node):
        s = args[0].d["s"]
        dt = self.dtype_arg(kw.get("dtype")) or s[2]
        x = self.scal(0, dt)
        return VArr(s[0], lambda *i: x, dt)

    def lib_numpy_full(self, args, kw, node):
        return VArr(self.shape_arg(args[0], node), lambda *i: args[1], self.dtype_arg(kw.get("dtype")) or self.dt_of(args[1]))

    def lib_numpy_empty_like(self, args, kw, node):
        s = args[0].d["s"]
        return self.fresh_mat(len(s[0]), self.dtype_arg(kw.get("dtype")) or s[2], "empty", dims=s[0])

    def lib_numpy_arange(self, args, kw, node):
        it = self.lib_builtins_range(args, {}, node)
        return VArr([it.len], lambda i: zi(it.at(i)), "i")

    def lib_numpy_dot(self, args, kw, node):
        self.dist_axioms()
        a, b = self.as_arr(args[0], node), self.as_arr(args[1], node)
        sa, sb = a.d["s"], b.d["s"]
        if len(sa[0]) == 1 and len(sb[0]) == 1:
            self.need(zi(sa[0][0]) == zi(sb[0][0]), "ValueError", node)
            return adot(self.arr_box(a), self.arr_box(b))
        if len(sa[0]) == 2 and len(sb[0]) == 1:
            bx = self.arr_box(b)
            self.need(zi(sa[0][1]) == zi(sb[0][0]), "ValueError", node)
            ra = self.rows_of(a)
            return VArr([sa[0][0]], lambda i: adot(ra(i), bx), "f")
        if len(sa[0]) == 2 and len(sb[0]) == 2:
            self.need(zi(sa[0][1]) == zi(sb[0][0]), "ValueError", node)
            ra = self.rows_of(a)
            cb = self.cols_of(b)
            return VArr([sa[0][0], sb[0][1]], lambda i, j: adot(ra(i), cb(j)), "f")
        if len(sa[0]) == 1 and len(sb[0]) == 2:
            self.need(zi(sa[0][0]) == zi(sb[0][0]), "ValueError", node)
            bx = self.arr_box(a)
            cb = self.cols_of(b)
            return VArr([sb[0][1]], lambda j: adot(bx, cb(j)), "f")
        raise Unsupported("np.dot")

    lib_numpy_matmul = lib_numpy_dot
    lib_numpy_inner = lib_numpy_dot

    def cols_of(self, v):
        t = getattr(v, "transposed", None)
        if t is not None and v.d["s"][1] is t[1] and (t[0][3] is not None or t[0][4] is not None):
            t = t[0]
            return t[4] if t[4] is not None else (lambda i: arow(t[3], zi(i)))
        return self.rows_of(self.arr_attr(v, "T"))

    def rows_of(self, v):
        s = v.d["s"]
        if s[4] is not None:
            return s[4]
        c = self.arr_box(v)
        return lambda i: arow(c, zi(i))

    def lib_numpy_linalg_norm(self, args, kw, node):
        self.dist_axioms()
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        ax = _opt(kw, args, 2, "axis")
        if _opt(kw, args, 1, "ord") not in (None, 2):
            raise Unsupported("norm order")
        if len(s[0]) == 1:
            return anorm(self.arr_box(v))
        if len(s[0]) == 2 and ax in (1, -1):
            r = self.rows_of(v)
            if kw.get("keepdims"):
                return VArr([s[0][0], 1], lambda i, j: anorm(r(i)), "f")
            return VArr([s[0][0]], lambda i: anorm(r(i)), "f")
        if len(s[0]) == 2 and ax is None:
            return F("frob", Arr, R)(self.arr_box(v))
        raise Unsupported("norm axis")

    def lib_numpy_argsort(self, args, kw, node):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        if len(s[0]) != 1:
            raise Unsupported("argsort of a matrix")
        n = zi(s[0][0])
        p, q = self.perm(n, s[1])
        a, b = z3.Int("a!as"), z3.Int("b!as")
        pa, pb = z3.Select(p, a), z3.Select(p, b)
        self.fact(forall([a, b], IMP(z3.And(0 <= a, a < b, b < n), s[1](pa) <= s[1](pb)), (pa, pb)))
        if kw.get("kind") in ("stable", "mergesort"):
            self.fact(forall([a, b], IMP(z3.And(0 <= a, a < b, b < n, s[1](pa) == s[1](pb)), pa < pb), (pa, pb)))
        return VArr([n], lambda i: z3.Select(p, zi(i)), "i")

    def lib_numpy_argpartition(self, args, kw, node):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        n, k = zi(s[0][0]), zi(self.unopt(args[1]))
        self.need(z3.And(k < n, k >= -n), "ValueError", node)
        p, q = self.perm(n, s[1])
        a, b = z3.Int("a!ap"), z3.Int("b!ap")
        pa, pb = z3.Select(p, a), z3.Select(p, b)
        kk = z3.If(k < 0, k + n, k)
        self.fact(forall([a, b], IMP(z3.And(0 <= a, a <= kk, kk <= b, b < n), s[1](pa) <= s[1](pb)), (pa, pb)))
        return VArr([n], lambda i: z3.Select(p, zi(i)), "i")

    def arg_ext(self, args, kw, node, lt):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        ax = _opt(kw, args, 1, "axis")
        self.nf += 1
        if len(s[0]) == 1:
            n = zi(s[0][0])
            self.need(n > 0, "ValueError", node)
            p = self.fresh("argm", I)
            j = z3.Int("j!am%d" % self.nf)
            x, y = s[1](p), s[1](j)
            self.fact(z3.And(0 <= p, p < n))
            self.fact(forall(j, IMP(z3.And(0 <= j, j < n), z3.And(x <= y if lt else x >= y, IMP(j < p, x < y if lt else x > y))), *self.pattern_for(zb(x <= y), j)))
            return p
        if len(s[0]) == 2 and ax in (1, -1):
            n = zi(s[0][1])
            self.need(n > 0, "ValueError", node)
            p = self.fresh("argm", z3.ArraySort(I, I))
            i, j = z3.Int("i!am%d" % self.nf), z3.Int("j!am%d" % self.nf)
            pi = z3.Select(p, i)
            x, y = s[1](i, pi), s[1](i, j)
            r = z3.And(0 <= i, i < zi(s[0][0]))
            self.fact(forall(i, IMP(r, z3.And(0 <= pi, pi < n)), pi))
            pats = self.pattern2(zb(x <= y), i, j)
            self.fact(forall([i, j], IMP(z3.And(r, 0 <= j, j < n), z3.And(x <= y if lt else x >= y, IMP(j < pi, x < y if lt else x > y))), *pats))
            return VArr([s[0][0]], lambda k: z3.Select(p, zi(k)), "i")
        raise Unsupported("argmin axis")

    def pattern2(self, e, i, j):
        st, out = [e], []
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and x.num_args() and occurs(i, x) and occurs(j, x) and x.sort() != B:
                out.append(x)
                break
            st.extend(x.children())
        return out

    def lib_numpy_argmin(self, args, kw, node):
        return self.arg_ext(args, kw, node, True)

    def lib_numpy_argmax(self, args, kw, node):
        return self.arg_ext(args, kw, node, False)

    def reduce_ext(self, args, kw, node, lt):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        if kw.get("keepdims"):
            raise Unsupported("min/max keepdims")
        ax = _opt(kw, args, 1, "axis")
        self.nf += 1
        if len(s[0]) == 1 and ax in (None, 0):
            p = self.arg_ext([v], {}, node, lt)
            return s[1](p)
        if len(s[0]) == 2 and ax == 0:
            n = zi(s[0][0])
            self.need(n > 0, "ValueError", node)
            w = self.fresh("extw", z3.ArraySort(I, I))
            m = self.fresh("extv", Arr)
            i, j = z3.Int("i!re%d" % self.nf), z3.Int("j!re%d" % self.nf)
            mj = at1(m, j)
            self.fact(adim(m, 0) == zi(s[0][1]))
            r = z3.And(0 <= j, j < zi(s[0][1]))
            wj = z3.Select(w, j)
            self.fact(forall(j, IMP(r, z3.And(0 <= wj, wj < n, mj == zr(s[1](wj, j)))), mj))
            y = zr(s[1](i, j))
            self.fact(forall([i, j], IMP(z3.And(r, 0 <= i, i < n), mj <= y if lt else mj >= y), *self.pattern2(y, i, j)))
            return self.arr_from_box(m, 1, "f", dims=[s[0][1]])
        raise Unsupported("min/max axis")

    def lib_numpy_min(self, args, kw, node):
        return self.reduce_ext(args, kw, node, True)

    def lib_numpy_max(self, args, kw, node):
        return self.reduce_ext(args, kw, node, False)

    def lib_numpy_clip(self, args, kw, node):
        v = args[0]
        lo, hi = _opt(kw, args, 1, "a_min"), _opt(kw, args, 2, "a_max")
        if isnum(v):
            v = zr(v) if any(is_sort(x, R) or isinstance(x, (float, Fraction)) for x in (v, lo, hi)) else zi(v)
            return z3.If(v < lo, zr(lo) if v.sort() == R else zi(lo), z3.If(v > hi, zr(hi) if v.sort() == R else zi(hi), v))
        a = self.arr_pair(v, lo, lambda x, y: z3.If(x < y, y, x)) if lo is not None else v
        return self.arr_pair(a, hi, lambda x, y: z3.If(x > y, y, x)) if hi is not None else a

    def arr_pair(self, a, b, f):
        fb = self.bcast_elem(b)
        s = a.d["s"]
        shape = self.bshape(s[0], b.d["s"][0] if isinstance(b, VArr) else [])
        fa = self.bcast_elem(a)
        def conv(x, y):
            if is_sort(x, R) or is_sort(y, R) or isinstance(x, (float, Fraction)) or isinstance(y, (float, Fraction)):
                return zr(x), zr(y)
            return zi(x), zi(y)
        db = b.d["s"][2] if isinstance(b, VArr) else self.dt_of(b)
        return VArr(shape, lambda *i: f(*conv(fa(*i), fb(*i))), "f" if "f" in (s[2], db) else s[2])

    def lib_numpy_maximum(self, args, kw, node):
        a, b = self.unopt(args[0]), self.unopt(args[1])
        if not isinstance(a, VArr):
            a, b = b, a
        return self.arr_pair(a, b, lambda x, y: z3.If(x > y, x, y))

    def lib_numpy_minimum(self, args, kw, node):
        a, b = self.unopt(args[0]), self.unopt(args[1])
        if not isinstance(a, VArr):
            a, b = b, a
        return self.arr_pair(a, b, lambda x, y: z3.If(x < y, x, y))

    def lib_numpy_where(self, args, kw, node):
        if len(args) == 1:
            c = args[0]
            s = c.d["s"]
            idx = VArr([s[0][0]], lambda i: zi(i), "i")
            return (self.arr_mask(idx, c, node),)
        c, a, b = args
        sh = c.d["s"][0]
        for x in (a, b):
            if isinstance(x, VArr):
                sh = self.bshape(sh, x.d["s"][0])
        fc, fa, fb = self.bcast_elem(c), self.bcast_elem(a), self.bcast_elem(b)
        dts = [x.d["s"][2] if isinstance(x, VArr) else self.dt_of(x) for x in (a, b)]
        dt = "f" if "f" in dts else dts[0]
        return VArr(sh, lambda *i: z3.If(zb(fc(*i)), self.scal(fa(*i), dt), self.scal(fb(*i), dt)), dt)

    def lib_numpy_round(self, args, kw, node):
        v = self.unopt(args[0])
        f = lambda x: z3.ToReal(self.round_half(x))
        if isinstance(v, VArr):
            if v.d["s"][2] == "i":
                return self.arr_method(v, "copy", [], {}, node)
            return self.arr_map(f, v)
        return f(zr(v))

    lib_numpy_rint = lib_numpy_round
    lib_numpy_around = lib_numpy_round

    def round_half(self, x):
        """Nearest integer (ties unspecified), monotone."""
        r = F("rint", R, I)
        if ("mem", "rint") not in self.st.d:
            self.set(self.st, ("mem", "rint"), True)
            y, z = z3.Const("y", R), z3.Const("z", R)
            self.raw_fact(forall([y], z3.And(z3.ToReal(r(y)) - y <= z3.Q(1, 2), y - z3.ToReal(r(y)) <= z3.Q(1, 2)), r(y)))
            self.raw_fact(forall([y, z], IMP(y <= z, r(y) <= r(z)), (r(y), r(z))))
        return r(zr(x))

    def lib_numpy_floor(self, args, kw, node):
        v = self.unopt(args[0])
        f = lambda x: z3.ToReal(z3.ToInt(zr(x)))
        return self.arr_map(f, v) if isinstance(v, VArr) else f(v)

    def lib_numpy_errstate(self, args, kw, node):
        return VCtx(None, "errstate")

    def lib_numpy_iinfo(self, args, kw, node):
        d = self.unopt(args[0])
        n = d.name.split(".")[-1] if isinstance(d, VLib) else d if isinstance(d, str) else ""
        bits = {"int8": 7, "int16": 15, "int32": 31, "int64": 63, "intp": 63, "int_": 63, "int": 63, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}.get(n)
        if bits is None:
            raise Unsupported("iinfo of %s" % n)
        self.ifaces["iinfo"] = lambda e, o, name, nd: o.d[name]
        return VObj("iinfo", {"max": 2 ** bits - 1, "min": 0 if n.startswith("u") else -2 ** bits, "bits": bits + (0 if n.startswith("u") else 1)})

    def lib_numpy_nan_to_num(self, args, kw, node):
        v = self.unopt(args[0], node)          # NaN and infinities are not modelled
        if not isinstance(v, VArr):
            return v
        return v if kw.get("copy", True) is False else self.arr_method(v, "copy", [], {}, node)

    def lib_numpy_pad(self, args, kw, node):
        """Zero padding of a vector at the end / start."""
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        w = _opt(kw, args, 1, "pad_width")
        if kw.get("mode", args[2] if len(args) > 2 else "constant") != "constant" or len(s[0]) != 1 or not isinstance(w, tuple) or len(w) != 2 or isinstance(w[0], tuple):
            raise Unsupported("np.pad")
        a, b = self.unopt(w[0]), self.unopt(w[1])
        self.need(AND(zi(a) >= 0, zi(b) >= 0), "ValueError", node)
        c = kw.get("constant_values", 0)
        n = zi(s[0][0])
        return VArr([z3.simplify(n + zi(a) + zi(b))], lambda i: z3.If(z3.And(zi(i) >= zi(a), zi(i) < zi(a) + n), self.scal(s[1](z3.simplify(zi(i) - zi(a))), s[2]), self.scal(c, s[2])), s[2])

    def lib_numpy_abs(self, args, kw, node):
        return self.lib_builtins_abs(args, kw, node)

    def lib_numpy_sqrt(self, args, kw, node):
        v = self.unopt(args[0])
        if isinstance(v, VArr):
            r = F("sqrt", R, R)
            if ("mem", "sqrt") not in self.st.d:
                self.set(self.st, ("mem", "sqrt"), True)
                y = z3.Const("y", R)
                self.raw_fact(forall([y], IMP(y >= 0, z3.And(r(y) >= 0, r(y) * r(y) == y)), r(y)))
            return self.arr_map(lambda x: r(zr(x)), v, "f")
        return self.sqrt(zr(v))

    lib_math_sqrt = lib_numpy_sqrt

    def lib_numpy_issubdtype(self, args, kw, node):
        d, t = args
        n = str(d.term) if isinstance(d, VOpaque) and d.kind == "dtype" else ""
        k = t.name.split(".")[-1] if isinstance(t, VLib) else ""
        table = {"number": "if", "floating": "f", "integer": "i", "bool_": "b", "inexact": "f"}
        if n in ("dtype_f", "dtype_i", "dtype_b") and k in table:
            return n[-1] in table[k]
        raise Unsupported("issubdtype")

    def lib_numpy_isnan(self, args, kw, node):
        v = self.unopt(args[0])
        return self.arr_map(lambda x: z3.BoolVal(False), v, "b") if isinstance(v, VArr) else False

    lib_numpy_isinf = lib_numpy_isnan

    def lib_numpy_isfinite(self, args, kw, node):
        v = self.unopt(args[0])
        return self.arr_map(lambda x: z3.BoolVal(True), v, "b") if isinstance(v, VArr) else True

    def lib_numpy_resize(self, args, kw, node):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        n = args[1]
        if len(s[0]) != 1 or isinstance(n, (tuple, VList)):
            raise Unsupported("numpy.resize")
        return VArr([n], lambda i: s[1](zi(i) % zi(s[0][0])), s[2])

    def quant_axis(self, v, ax, q):
        s = v.d["s"]
        if len(s[0]) == 1 and ax in (0, -1):
            return None
        if len(s[0]) != 2 or ax not in (0, 1, -1, -2):
            raise Unsupported("axis")
        k = ax % 2
        y = z3.Int("y!ax")
        def elem(i):
            b = zb(self.truth(s[1](y, i) if k == 0 else s[1](i, y)))
            return q(z3.And(0 <= y, y < zi(s[0][k])), b, y)
        return VArr([s[0][1 - k]], elem, "b")

    def lib_numpy_any(self, args, kw, node):
        v = self.as_arr(args[0], node)
        ax = _opt(kw, args, 1, "axis")
        if ax is not None:
            r = self.quant_axis(v, ax, lambda rng, b, y: z3.Exists([y], z3.And(rng, b)))
            if r is not None:
                return r
        s = v.d["s"]
        vs = [z3.Int("y!an%d" % k) for k in range(len(s[0]))]
        b = zb(self.truth(s[1](*vs)))
        if z3.is_false(b):
            return False
        return z3.Exists(vs, z3.And(*[z3.And(0 <= x, x < zi(n)) for x, n in zip(vs, s[0])] + [b])) if vs else b

    def lib_numpy_all(self, args, kw, node):
        v = self.as_arr(args[0], node)
        ax = _opt(kw, args, 1, "axis")
        if ax is not None:
            r = self.quant_axis(v, ax, lambda rng, b, y: z3.ForAll([y], IMP(rng, b)))
            if r is not None:
                return r
        s = v.d["s"]
        vs = [z3.Int("y!al%d" % k) for k in range(len(s[0]))]
        b = zb(self.truth(s[1](*vs)))
        if z3.is_true(b):
            return True
        return z3.ForAll(vs, IMP(z3.And(*[z3.And(0 <= x, x < zi(n)) for x, n in zip(vs, s[0])]), b)) if vs else b

    def lib_numpy_sum(self, args, kw, node):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        if kw.get("keepdims"):
            r = self.lib_numpy_sum(args, {k: x for k, x in kw.items() if k != "keepdims"}, node)
            if isinstance(r, VArr) and len(s[0]) == 2:
                e = r.d["s"][1]
                return VArr([s[0][0], 1], lambda i, j: e(i), r.d["s"][2])
            raise Unsupported("np.sum keepdims")
        ax = _opt(kw, args, 1, "axis")
        if len(s[0]) == 1 and ax in (None, 0, -1):
            if s[2] == "f":
                t = F("asum", Arr, R)(self.arr_box(v))
                if not self.pure:       # a sum of non-negative numbers is not negative
                    w = self.fresh("w", I)
                    self.fact(z3.Or(t >= 0, z3.And(0 <= w, w < zi(s[0][0]), zr(s[1](w)) < 0)))
                return t
            return self.symbolic_sum(self.iter_to_list(self.arr_iter(v)), node)
        if len(s[0]) == 2 and ax in (1, -1) and s[2] == "f":
            r = self.rows_of(v)
            return VArr([s[0][0]], lambda i: F("asum", Arr, R)(r(i)), "f")
        if ax is None and s[2] == "f":
            return F("asumall", Arr, R)(self.arr_box(v))
        raise Unsupported("np.sum")

    def lib_numpy_mean(self, args, kw, node):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        ax = _opt(kw, args, 1, "axis")
        if ax is None:
            return F("amean", Arr, R)(self.arr_box(v))
        if ax == 0 and len(s[0]) == 2:
            m = F("acolmean", Arr, Arr)(self.arr_box(v))
            r = self.arr_from_box(m, 1, "f")
            self.fact(adim(m, 0) == zi(s[0][1]))
            if kw.get("keepdims"):
                e = r.d["s"][1]
                return VArr([1, s[0][1]], lambda i, j: e(j), "f", None, lambda i: m)
            return VArr([s[0][1]], r.d["s"][1], "f", m)
        if kw.get("keepdims"):
            raise Unsupported("np.mean keepdims")
        if ax in (1, -1) and len(s[0]) == 2:
            r = self.rows_of(v)
            return VArr([s[0][0]], lambda i: F("amean", Arr, R)(r(i)), "f")
        raise Unsupported("np.mean axis")

    def lib_numpy_std(self, args, kw, node, nm="astd"):
        v = self.as_arr(args[0], node)
        s = v.d["s"]
        ax = _opt(kw, args, 1, "axis")
        if ax is None:
            r = F(nm, Arr, R)(self.arr_box(v))
            self.fact(r >= 0)
            return r
        if ax == 0 and len(s[0]) == 2:
            m = F("acol" + nm, Arr, Arr)(self.arr_box(v))
            j = z3.Int("j!sd")
            self.fact(forall(j, at1(m, j) >= 0, at1(m, j)))
            self.fact(adim(m, 0) == zi(s[0][1]))
            return VArr([s[0][1]], lambda i: at1(m, zi(i)), "f", m)
        raise Unsupported("np.std axis")

    def lib_numpy_var(self, args, kw, node):
        return self.lib_numpy_std(args, kw, node, "avar")

    def lib_numpy_random_randn(self, args, kw, node):
        return self.fresh_mat(len(args), "f", "randn", dims=[self.unopt(a) for a in args])

    def lib_numpy_random_seed(self, args, kw, node):
        return None

    def lib_numpy_array_equal(self, args, kw, node):
        a, b = self.as_arr(args[0]), self.as_arr(args[1])
        return self.arr_box(a) == self.arr_box(b)

    def lib_numpy_vstack(self, args, kw, node):
        return self.lib_numpy_array(args, {}, node)

    lib_numpy_stack = lib_numpy_vstack

    # ---- scikit-learn
    def lib_sklearn_metrics_pairwise_cosine_similarity(self, args, kw, node):
        return self.pairwise(args, "cossim", node)

    def lib_sklearn_metrics_pairwise_euclidean_distances(self, args, kw, node):
        return self.pairwise(args, "eucdist", node)

    def lib_sklearn_metrics_pairwise_cosine_distances(self, args, kw, node):
        m = self.pairwise(args, "cossim", node)
        return self.arr_map(lambda x: 1 - x, m)

    def pairwise(self, args, fn, node):
        a = self.as_arr(args[0], node)
        b = self.as_arr(args[1], node) if len(args) > 1 else a
        sa, sb = a.d["s"], b.d["s"]
        if len(sa[0]) != 2 or len(sb[0]) != 2:
            self.implicit_raise("ValueError", "2D expected", node)
        self.need(zi(sa[0][1]) == zi(sb[0][1]), "ValueError", node)
        self.need(AND(zi(sa[0][0]) > 0, zi(sb[0][0]) > 0), "ValueError", node)
        ra, rb = self.rows_of(a), self.rows_of(b)
        f = F(fn, Arr, Arr, R)
        return VArr([sa[0][0], sb[0][0]], lambda i, j: f(ra(i), rb(j)), "f")


class KMeansMixin:
    """Trusted contract of sklearn.cluster.KMeans: labels are cluster numbers, predict picks a nearest centre."""

    def lib_sklearn_cluster_KMeans(self, args, kw, node):
        o = VObj("KMeans")
        o.d["n_clusters"] = args[0] if args else kw.get("n_clusters", 8)
        o.d["$centers"] = o.d["$labels"] = None
        self.ifaces["KMeans"] = KMeansMixin.kmeans_attr
        return o

    @staticmethod
    def kmeans_attr(ex, o, name, node):
        if name in ("fit", "fit_predict", "predict", "transform", "fit_transform"):
            return VPy(lambda e, a, kw, n, nm=name: e.kmeans_call(o, nm, a, kw, n), name)
        if name == "cluster_centers_" and o.d["$centers"] is not None:
            return o.d["$centers"]
        if name == "labels_" and o.d["$labels"] is not None:
            return o.d["$labels"]
        if name in ("cluster_centers_", "labels_"):
            ex.implicit_raise("AttributeError", name, node)
        raise Unsupported("KMeans." + name)

    def kmeans_call(self, o, name, args, kw, node):
        if self.pure:
            raise NeedFork()
        X = self.as_arr(args[0] if args else kw.get("X"), node)
        s = X.d["s"]
        if len(s[0]) != 2:
            self.implicit_raise("ValueError", "2D expected", node)
        n = self.unopt(o.d["n_clusters"])
        j, c = z3.Int("j!km"), z3.Int("c!km")
        if name in ("fit", "fit_predict"):
            self.need(AND(zi(n) >= 1, zi(s[0][0]) >= zi(n), zi(s[0][1]) >= 1), "ValueError", node)
            C = self.fresh_mat(2, "f", "centers", [n, s[0][1]])
            lab = self.fresh("labels", z3.ArraySort(I, I))
            self.fact(forall(j, IMP(z3.And(0 <= j, j < zi(s[0][0])), z3.And(0 <= z3.Select(lab, j), z3.Select(lab, j) < zi(n))), z3.Select(lab, j)))
            L = VArr([s[0][0]], lambda i: z3.Select(lab, zi(i)), "i")
            self.set(o, "$centers", C)
            self.set(o, "$labels", L)
            return L if name == "fit_predict" else o
        if name == "predict":
            C = o.d["$centers"]
            if C is None:
                self.implicit_raise("ValueError", "not fitted", node)
            self.need(zi(s[0][1]) == zi(C.d["s"][0][1]), "ValueError", node)
            self.need(zi(s[0][0]) >= 1, "ValueError", node)
            lab = self.fresh("labels", z3.ArraySort(I, I))
            rows, cents = self.rows_of(X), self.rows_of(C)
            f = F("eucdist", Arr, Arr, R)
            lj = z3.Select(lab, j)
            self.fact(forall(j, IMP(z3.And(0 <= j, j < zi(s[0][0])), z3.And(0 <= lj, lj < zi(n))), lj))
            self.fact(forall([j, c], IMP(z3.And(0 <= j, j < zi(s[0][0]), 0 <= c, c < zi(n)), f(rows(j), cents(lj)) <= f(rows(j), cents(c))),
                             f(rows(j), cents(c)), (lj, cents(c))))
            return VArr([s[0][0]], lambda i: z3.Select(lab, zi(i)), "i")
        raise Unsupported("KMeans." + name)


class RandomMixin:
    """Trusted contract of numpy random generators: arrays of the requested shape with arbitrary values."""

    def lib_numpy_random_RandomState(self, args, kw, node):
        self.ifaces["RandomState"] = RandomMixin.rng_attr
        return VObj("RandomState")

    lib_numpy_random_default_rng = lib_numpy_random_RandomState

    def lib_numpy_random_seed(self, args, kw, node):
        return None

    @staticmethod
    def rng_attr(ex, o, name, node):
        def shaped(args, kw, pos, dtype="f"):
            size = args[pos] if len(args) > pos else kw.get("size")
            if size is None:
                return ex.fresh("rand", R if dtype == "f" else I)
            size = list(size) if isinstance(size, tuple) else [size]
            return ex.fresh_mat(len(size), dtype, "random", size)
        if name in ("normal", "uniform"):
            return VPy(lambda e, a, k, n: shaped(a, k, 2), name)
        if name in ("randn", "rand"):
            return VPy(lambda e, a, k, n: ex.fresh_mat(len(a), "f", "random", list(a)) if a else ex.fresh("rand", R), name)
        if name in ("standard_normal", "random_sample", "random"):
            return VPy(lambda e, a, k, n: shaped(a, k, 0), name)
        raise Unsupported("random generator method " + name)


class Exec(RandomMixin, KMeansMixin, ArraysMixin, LibMixin, LoopsMixin, ExecMixin, ValuesMixin, ExecBase):
    pass
