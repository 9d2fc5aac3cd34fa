"""Statements and expressions."""
from .values import *

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


class Frame:
    def __init__(self, env, mod, cls, fn, self_val=None):
        self.env, self.mod, self.cls, self.fn, self.self_val = env, mod, cls, fn, self_val


def isnum(v):
    return isinstance(v, (bool, int, float, Fraction)) or (is_z3(v) and v.sort() in (I, R, B))


def isstr(v):
    return isinstance(v, str) or is_sort(v, Str)


class ExecMixin:
    MAXDEPTH = 40

    @property
    def frame(self):
        return self.frames[-1]

    # ------------------------------------------------------------- names
    def lookup_name(self, name, node=None):
        env = self.frame.env
        while env is not None:
            if name in env.d:
                v = env.d[name]
                if isinstance(v, VPoison):
                    raise Unsupported("use of %s: %s (line %s)" % (name, v.why, getattr(node, "lineno", "?")))
                return v
            env = env.outer
        v = self.repo.lookup(self.frame.mod, name)
        if v is None:
            return VLib("builtins." + name)
        if isinstance(v, tuple) and v and v[0] == "expr":
            return self.module_expr(v)
        return v

    def module_expr(self, v):
        key = ("module", id(v[1]))
        if key in self.st.d:
            return self.st.d[key]
        self.frames.append(Frame(Env(), v[2], None, None))
        try:
            r = self.ev(v[1])
        finally:
            self.frames.pop()
        if isinstance(r, (VDict, VList, VSet)) and not self.pure:
            self.set(self.st, key, r)           # one object per run
        return r

    def assign_name(self, name, val):
        fr = self.frame
        if name in fr.nonlocals:
            env = fr.env.outer
            while env is not None:
                if name in env.d:
                    self.set(env, name, val)
                    return
                env = env.outer
        self.set(fr.env, name, val)

    # ------------------------------------------------------------- truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, Fraction, tuple)):
            return bool(v)
        if is_z3(v):
            s = v.sort()
            if s == B:
                return v
            if s == I or s == R:
                return v != 0
            if s == Str:
                return slen(v) > 0
            if s == PathS:
                return True
        if isinstance(v, VOpt):
            t = self.truth(v.value) if v.isnone is not True else False
            return AND(NOT(v.isnone), t)
        if isinstance(v, VList):
            n = self.list_len(v)
            return n > 0
        if isinstance(v, VDict):
            n = self.dict_len(v)
            return n > 0
        if isinstance(v, VSet):
            s = self.sset(v)
            return len(s[1]) > 0 if s[0] == "c" else self.card(s[1]) > 0
        if isinstance(v, VMeta):
            return F("meta_nonempty", MetaV, B)(self.meta_val(v))
        if isinstance(v, (VObj, VFunc, VPy, VLib, ClassInfo, VMethod, VCtx, VExc)):
            return True
        if isinstance(v, VConf):
            return self.fresh("conf_nonempty", B)
        if isinstance(v, VOpaque):
            return F("truth_" + v.kind, Obj, B)(v.term)
        if isinstance(v, VPoison):
            raise Unsupported("truth of poisoned value: %s" % v.why)
        if isinstance(v, VArr):
            s = v.d["s"]
            if len(s[0]) == 0:
                return self.truth(s[1]())
            raise Unsupported("truth value of an array")
        raise Unsupported("truth of %s" % type(v).__name__)

    def cond(self, node):
        """Evaluate a condition, forking on sub-conditions; returns a python bool (or a term in pure mode)."""
        if isinstance(node, ast.BoolOp):
            if self.pure:
                return self.pure_bool(node)
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                r = self.cond(v)
                if r != isand:
                    return r
            return isand
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            r = self.cond(node.operand)
            return NOT(r)
        t = self.truth(self.ev(node))
        if self.pure:
            return t
        return self.branch(t)

    def pure_bool(self, node):
        isand = isinstance(node.op, ast.And)
        acc, n = [], 0
        try:
            for v in node.values:
                t = self.cond(v)
                acc.append(t)
                self.pure.append({"vars": [], "guards": [t if isand else NOT(t)]})
                n += 1
        finally:
            for _ in range(n):
                self.pure.pop()
        return AND(*acc) if isand else OR(*acc)

    # ------------------------------------------------------------- expressions
    def ev(self, node):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %d)" % (type(node).__name__, node.lineno))
        return m(node)

    def ev_Constant(self, node):
        v = node.value
        if v is None or isinstance(v, (bool, int, str, float)):
            return v
        if v is Ellipsis:
            return None
        if isinstance(v, bytes):
            return VOpaque(F("bytes", Str, Obj)(lit(v.decode("latin1"))), "bytes")
        raise Unsupported("constant %r" % (v,))

    def ev_Name(self, node):
        return self.lookup_name(node.id, node)

    def ev_Tuple(self, node):
        return tuple(self.ev_elts(node.elts))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_iter(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def ev_List(self, node):
        return VList(("c", self.ev_elts(node.elts)))

    def ev_Set(self, node):
        return VSet(("c", self.ev_elts(node.elts)))

    def ev_Dict(self, node):
        if len(node.keys) == 1 and node.keys[0] is None:
            v = self.unopt(self.ev(node.values[0]), node)
            if isinstance(v, (VMeta, VConf)):
                return self.copy_of(v, node)
            d = VDict(("c", {}))
            self.dict_update(d, v)
            return d
        d = VDict(("c", {}))
        for k, v in zip(node.keys, node.values):
            if k is None:
                self.dict_update(d, self.ev(v))
            else:
                kk = self.ev(k)
                self.dict_set(d, kk, self.ev(v))
        return d

    def ev_Attribute(self, node):
        return self.getattr(self.ev(node.value), node.attr, node)

    def ev_IfExp(self, node):
        c = self.cond(node.test)
        if isinstance(c, bool):
            return self.ev(node.body if c else node.orelse)
        m = self.mark()
        try:
            return self.if_merged(node, c)
        except NeedFork:
            if self.pure and not self.pforks:
                raise
            self.rollback(m)
        return self.ev(node.body if self.branch(c) else node.orelse)

    def if_merged(self, node, c):
        self.pure.append({"vars": [], "guards": [c]})
        try:
            a = self.ev(node.body)
        finally:
            self.pure.pop()
        self.pure.append({"vars": [], "guards": [NOT(c)]})
        try:
            b = self.ev(node.orelse)
        finally:
            self.pure.pop()
        return self.merge(c, a, b)

    def merge(self, c, a, b):
        if a is b:
            return a
        t = self.join(self.type_of(a), self.type_of(b))
        return self.unbox(t, z3.If(c, self.box(t, a), self.box(t, b)))

    def ev_BoolOp(self, node):
        if self.pure:
            vals = []
            return self.pure_bool(node)
        isand = isinstance(node.op, ast.And)
        for i, v in enumerate(node.values):
            x = self.ev(v)
            if i == len(node.values) - 1:
                return x
            t = self.branch(self.truth(x))
            if t != isand:
                return x
            if isinstance(x, VOpt) and t:
                x = x.value

    def ev_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            c = self.cond(node.operand)
            return NOT(c)
        v = self.unopt(self.ev(node.operand), node)
        if isinstance(node.op, ast.USub):
            if isinstance(v, VArr):
                return self.arr_map(lambda x: -x, v, op="neg")
            if isnum(v):
                return -v if not is_sort(v, B) else -z3.If(v, 1, 0)
        if isinstance(node.op, ast.UAdd):
            return self.arr_method(v, "copy", [], {}, node) if isinstance(v, VArr) else v
        if isinstance(node.op, ast.Invert) and isinstance(v, VArr):
            return self.arr_map(NOT, v, op="not")
        raise Unsupported("unary operator (line %d)" % node.lineno)

    def ev_BinOp(self, node):
        a, b = self.ev(node.left), self.ev(node.right)
        return self.binop(BIN[type(node.op)], a, b, node)

    def binop(self, op, a, b, node=None):
        a, b = self.unopt(a, node), self.unopt(b, node)
        if isinstance(a, VArr) or isinstance(b, VArr):
            return self.arr_binop(op, a, b, node)
        if is_sort(a, PathS) and op == "/":
            return self.path_join(a, self.S(b) if isstr(b) else b)
        if op == "%" and isstr(a):
            return self.fresh("fmt", Str)
        if isstr(a) and isstr(b) and op == "+":
            return self.str_concat([a, b])
        if isstr(a) and op == "*" and not is_z3(a) and isinstance(b, int):
            return a * b
        if isinstance(a, VList) and isinstance(b, VList) and op == "+":
            return self.list_concat(a, b)
        if isinstance(a, VList) and op == "*":
            return self.list_repeat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, VSet) and isinstance(b, VSet):
            return self.set_op(op, a, b)
        if op == "|" and isinstance(a, VMeta) and isinstance(b, VDict) and self.dct(b) == ("c", {}):
            return self.copy_of(a, node)
        if op == "|" and isinstance(b, VMeta) and isinstance(a, VDict) and self.dct(a) == ("c", {}):
            return self.copy_of(b, node)
        if isnum(a) and isnum(b):
            return self.arith(op, a, b, node)
        if op == "+" and (isstr(a) or isstr(b) or a is None or b is None):
            self.implicit_raise("TypeError", "bad operand", node)
        raise Unsupported("%s of %s and %s (line %s)" % (op, type(a).__name__, type(b).__name__, getattr(node, "lineno", "?")))

    def arith(self, op, a, b, node=None):
        if is_sort(a, B):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_sort(b, B):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if not is_z3(a) and not is_z3(b):
            fa = a if isinstance(a, int) else Fraction(repr(a)) if isinstance(a, float) and a not in (float("inf"), float("-inf")) else a
            fb = b if isinstance(b, int) else Fraction(repr(b)) if isinstance(b, float) and b not in (float("inf"), float("-inf")) else b
            if op in ("/", "//", "%") and fb == 0:
                self.implicit_raise("ZeroDivisionError", "", node)
            if op == "/":
                return Fraction(fa) / Fraction(fb)
            return {"+": lambda: fa + fb, "-": lambda: fa - fb, "*": lambda: fa * fb, "//": lambda: fa // fb,
                    "%": lambda: fa % fb, "**": lambda: fa ** fb, "&": lambda: fa & fb, "|": lambda: fa | fb,
                    "<<": lambda: fa << fb, ">>": lambda: fa >> fb, "^": lambda: fa ^ fb}[op]()
        real = op == "/" or any(is_sort(x, R) or isinstance(x, (float, Fraction)) for x in (a, b))
        if op in ("/", "//", "%"):
            nz = (zr(b) if real else zi(b)) != 0
            if op == "/" and real and (is_sort(a, R) or is_sort(b, R)) and self.npfloat:
                pass
            else:
                self.need(z3.simplify(nz) if is_z3(nz) else nz, "ZeroDivisionError", node)
        if op in ("<<", "&", "|", "^", ">>"):
            if op == "<<" and a == 1 if not is_z3(a) else False:
                return self.pow2(zi(b))
            return F("bit" + op, I, I, I)(zi(a), zi(b))
        if op == "**":
            if not is_z3(b) and isinstance(b, int) and 0 <= b <= 3:
                x = zr(a) if real else zi(a)
                r = z3.RealVal(1) if real else z3.IntVal(1)
                for _ in range(b):
                    r = r * x if not (z3.is_rational_value(r) or z3.is_int_value(r)) else x
                return r
            if not is_z3(a) and a == 2 and not real:
                return self.pow2(zi(b))
            if not is_z3(b) and (b == 0.5 or b == Fraction(1, 2)):
                return self.sqrt(zr(a))
            raise Unsupported("power")
        if real:
            a, b = zr(a), zr(b)
            if op == "//":
                return z3.ToReal(z3.ToInt(a / b))
            if op == "%":
                return a - b * z3.ToReal(z3.ToInt(a / b))
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
        a, b = zi(a), zi(b)
        if op in ("//", "%"):
            m = getattr(self, "multiples", {}).get(a.get_id())
            if op == "//" and m and m[2].eq(b):
                return m[1]             # (st * k) // st
            pos = z3.is_int_value(b) and b.as_long() > 0
            q = a / b if pos else z3.If(b > 0, a / b, (-a) / (-b))
            if op == "//":
                if not z3.is_int_value(b) and not self.pure:
                    self.fact(IMP(b > 0, z3.And(b * (a / b) <= a, a < b * (a / b) + b)))
                return q
            return a % b if pos else z3.If(b > 0, a % b, -((-a) % (-b)))
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()

    npfloat = False

    def pow2(self, n):
        p = F("pow2", I, I)
        if ("pow2",) not in self.st.d:
            self.set(self.st, ("pow2",), True)
            k = z3.Int("k")
            self.raw_fact(p(0) == 1)
            self.raw_fact(forall(k, IMP(k >= 0, p(k + 1) == 2 * p(k)), p(k + 1)))
            self.raw_fact(forall(k, IMP(k >= 0, p(k) >= 1), p(k)))
            self.raw_fact(forall(k, IMP(k >= 1, p(k) >= 2), p(k)))
        return p(n)

    def sqrt(self, x):
        r = F("sqrt", R, R)(x)
        self.fact(IMP(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    def ev_Compare(self, node):
        left = self.ev(node.left)
        acc, n = [], 0
        try:
            for op, right in zip(node.ops, node.comparators):
                r = self.ev(right)
                c = self.compare(op, left, r, node)
                if isinstance(c, VArr):
                    return c
                acc.append(c)
                left = r
                if len(node.ops) > 1:
                    if self.pure:
                        self.pure.append({"vars": [], "guards": [c]})
                        n += 1
                    elif not self.branch(c):
                        return False
        finally:
            for _ in range(n):
                self.pure.pop()
        return AND(*acc)

    def compare(self, op, a, b, node=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else NOT(r)
        o = CMP[type(op)]
        if isinstance(a, VArr) or isinstance(b, VArr):
            return self.arr_compare(o, self.unopt(a), self.unopt(b))
        if o == "==":
            return self.eq(a, b)
        if o == "!=":
            return NOT(self.eq(a, b))
        a, b = self.unopt(a, node), self.unopt(b, node)
        if isnum(a) and isnum(b):
            if not is_z3(a) and not is_z3(b):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            if is_sort(a, R) or is_sort(b, R) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
                x, y = zr(a), zr(b)
            else:
                f = lambda v: z3.If(v, z3.IntVal(1), z3.IntVal(0)) if is_sort(v, B) else zi(v)
                x, y = f(a), f(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
        if isinstance(a, VSet) and isinstance(b, VSet):
            sa, sb = self.sym_set(a), self.sym_set(b)
            k = z3.Const("k!sub", sa[1].sort().domain())
            if o == "<=":
                return z3.ForAll([k], IMP(z3.Select(sa[1], k), z3.Select(sb[1], k)))
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return self.opaque_compare(o, a, b, node)
        if (isnum(a) and (isstr(b) or b is None)) or (isnum(b) and (isstr(a) or a is None)):
            self.implicit_raise("TypeError", "unorderable", node)
        raise Unsupported("comparison of %s and %s (line %s)" % (type(a).__name__, type(b).__name__, getattr(node, "lineno", "?")))

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, VOpt):
                return x.isnone
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if is_sort(y, B):
                return y == x
            if not isinstance(y, VOpt):
                return False
        if isinstance(a, (VObj, VList, VDict, VSet, ClassInfo)) or isinstance(b, (VObj, VList, VDict, VSet, ClassInfo)):
            return a is b
        if isinstance(a, VLib) and isinstance(b, VLib):
            return a.name == b.name
        raise Unsupported("identity comparison")

    def contains(self, c, x, node=None):
        c = self.unopt(c, node)
        if isinstance(c, tuple):
            return OR(*[self.eq(y, x) for y in c])
        if isinstance(x, VOpt) and not isinstance(c, tuple):
            x = self.unopt(x, node)
        if isinstance(c, VList):
            return self.list_contains(c, x)
        if isinstance(c, VDict):
            return self.dict_has(c, x)
        if isinstance(c, VSet):
            return self.set_has(c, x)
        if isinstance(c, VConf):
            return self.conf_has(c, x)
        if isinstance(c, VMeta):
            return F("meta_has", MetaV, Str, B)(self.meta_val(c), self.S(x))
        if isinstance(c, VIter):
            return self.iter_contains(c, x)
        if isstr(c) and isstr(x):
            if not is_z3(c) and not is_z3(x):
                return x in c
            return F("str_in", Str, Str, B)(self.S(x), self.S(c))
        if isinstance(c, VOpaque):
            return self.opaque_contains(c, x)
        raise Unsupported("membership in %s (line %s)" % (type(c).__name__, getattr(node, "lineno", "?")))

    def unopt(self, v, node=None):
        if isinstance(v, VOpt):
            self.need(NOT(v.isnone), "AttributeError", node, "None")
            return self.unopt(v.value, node)
        return v

    def ev_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec)
                    spec = sp if isinstance(sp, str) else "?"
                parts.append(self.to_str(x, spec))
        return self.str_concat(parts)

    def str_concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" if isinstance(p, str) else True:
                out.append(p)
        if not out:
            return ""
        r = out[-1]
        if len(out) == 1:
            return r
        r = self.S(r)
        for p in reversed(out[:-1]):
            c = sconcat(self.S(p), r)
            self.fact(slen(c) == slen(self.S(p)) + slen(r))
            r = c
        return r

    def to_str(self, x, spec=None):
        if spec is None:
            if isstr(x):
                return x
            if isinstance(x, (bool, int)) or x is None:
                return str(x)
        if isinstance(x, (VExc,)):
            return self.fresh("excstr", Str)
        if is_sort(x, I) or isinstance(x, int):
            f = F("int2str_" + (spec or ""), I, Str)
            g = F("str2int_" + (spec or ""), Str, I)
            r = f(zi(x))
            self.fact(g(r) == zi(x))
            self.fact(slen(r) >= 1)
            return r
        if is_sort(x, PathS):
            return self.path_str(x)
        if is_sort(x, R) or isinstance(x, (float, Fraction)):
            return F("real2str_" + (spec or ""), R, Str)(zr(x))
        if isinstance(x, VOpaque) and x.kind == "uuid":
            return F("str_of_uuid", Obj, Str)(x.term)
        return self.fresh("str", Str)

    def ev_FormattedValue(self, node):
        return self.to_str(self.ev(node.value))

    def ev_Lambda(self, node):
        return VFunc(node, self.frame.mod, self.frame.env, self.frame.cls)

    def ev_Subscript(self, node):
        v = self.unopt(self.ev(node.value), node)
        return self.getitem(v, node.slice, node)

    def ev_Slice(self, node):
        return slice(*[self.ev(x) if x is not None else None for x in (node.lower, node.upper, node.step)])

    def getitem(self, v, sl, node):
        if isinstance(v, (VLib, ClassInfo)):
            return v
        ix = self.ev(sl)
        if isinstance(v, VArr):
            return self.arr_getitem(v, ix, node)
        if isinstance(ix, slice):
            return self.getslice(v, ix, node)
        ix = self.unopt(ix, node)
        if isinstance(v, tuple):
            if isinstance(ix, int):
                if -len(v) <= ix < len(v):
                    return v[ix]
                return self.implicit_raise("IndexError", "", node)
            v = VList(("c", list(v)))
        if isinstance(v, VList):
            return self.list_get(v, self.index(ix, self.list_len(v), node))
        if isinstance(v, VDict):
            return self.dict_get(v, ix, node)
        if isinstance(v, VConf):
            self.need(self.conf_has(v, ix), "KeyError", node)
            return v.d[ix][1]
        if isstr(v):
            i = self.index(ix, len(v) if isinstance(v, str) else slen(v), node)
            if isinstance(v, str) and isinstance(i, int):
                return v[i]
            return self.substr(self.S(v), zi(i), zi(i) + 1)
        if isinstance(v, VIter):
            return v.at(self.index(ix, v.len, node))
        return self.opaque_getitem(v, ix, node)

    def index(self, i, n, node=None):
        """Valid non-negative index (IndexError otherwise)."""
        if is_sort(i, R) or isinstance(i, (float, Fraction)):
            self.implicit_raise("TypeError", "index", node)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if isinstance(n, int):
                if not -n <= i < n:
                    return self.implicit_raise("IndexError", "index out of range", node)
                return i if i >= 0 else i + n
            if i >= 0:
                self.need(n > i, "IndexError", node)
                return i
            self.need(n >= -i, "IndexError", node)
            return z3.simplify(n + i)
        i = zi(i)
        n = zi(n)
        if self.pure or (z3.simplify(i >= 0).get_id() in self.factset):
            self.need(z3.And(i >= -n, i < n), "IndexError", node)
            return z3.simplify(z3.If(i < 0, i + n, i)) if not self.prove(self.close(i >= 0)) else i
        if self.branch(i >= 0):
            self.need(i < n, "IndexError", node)
            return i
        self.need(i + n >= 0, "IndexError", node)
        return i + n

    def close(self, g):
        for sc in reversed(self.pure):
            g = zb(IMP(AND(*sc["guards"]), g))
            vs = [v for v in sc["vars"] if occurs(v, g)]
            if vs:
                g = z3.ForAll(vs, g)
        return g

    def getslice(self, v, sl, node):
        if isinstance(sl.step, int) and sl.step == -1 and sl.start is None and sl.stop is None:
            if isinstance(v, VList):
                s = self.lst(v)
                if s[0] == "c":
                    return VList(("c", s[1][::-1]))
                n, at = s[1], s[2]
                return VList(("s", n, lambda j: at(n - 1 - zi(j)), s[3], None))
        if sl.step not in (None, 1):
            if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
                return v[sl]
            raise Unsupported("slice step (line %d)" % node.lineno)
        if isinstance(v, tuple):
            return v[sl]
        if isstr(v):
            if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop)):
                return v[sl]
            n = slen(self.S(v))
            lo, hi = self.clamp(sl.start, n, 0), self.clamp(sl.stop, n, n)
            return self.substr(self.S(v), zi(lo), zi(hi))
        if isinstance(v, VIter):
            v = self.iter_to_list(v)
        if isinstance(v, VList):
            n = self.list_len(v)
            lo, hi = self.clamp(self.unopt(sl.start), n, 0), self.clamp(self.unopt(sl.stop), n, n)
            if isinstance(lo, int) and isinstance(hi, int):
                hi = max(lo, hi)
            elif not (isinstance(lo, int) and lo == 0):
                hi = z3.If(zi(hi) < zi(lo), zi(lo), zi(hi))
            return self.list_slice(v, lo, hi)
        if isinstance(v, VOpaque):
            return self.opaque_getitem(v, sl, node)
        raise Unsupported("slice of %s (line %d)" % (type(v).__name__, node.lineno))

    # ------------------------------------------------------------- comprehensions
    def ev_ListComp(self, node):
        return self.comp(node, node.elt)

    def ev_GeneratorExp(self, node):
        v = self.comp(node, node.elt)
        s = self.lst(v)
        return v

    def ev_SetComp(self, node):
        v = self.comp(node, node.elt)
        return self.list_to_set(v)

    def ev_DictComp(self, node):
        g = node.generators[0]
        if (len(node.generators) == 1 and not g.ifs and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2
                and all(isinstance(x, ast.Name) for x in (*g.target.elts, node.key, node.value))
                and [x.id for x in g.target.elts] == [node.key.id, node.value.id] and node.key.id != node.value.id
                and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items"
                and not g.iter.args and not g.iter.keywords and isinstance(g.iter.func.value, ast.Name)):
            v = self.ev(g.iter.func.value)          # {k: v for k, v in d.items()} is a copy of d
            v = v.value if isinstance(v, VOpt) and self.prove(NOT(v.isnone)) else v
            if isinstance(v, VMeta):
                return self.copy_of(v, node)
        v = self.comp(node, ast.Tuple(elts=[node.key, node.value], ctx=ast.Load(), lineno=node.lineno, col_offset=0))
        return self.pairs_to_dict(v)

    def comp(self, node, elt):
        if len(node.generators) != 1:
            return self.comp_loop(node, elt)
        g = node.generators[0]
        if g.ifs and self.filter_loops and not self.pure:
            return self.comp_loop(node, elt)
        it = self.to_iter(self.ev(g.iter), node)
        env = Env(self.frame.env)
        fr = self.frame
        self.frames.append(Frame(env, fr.mod, fr.cls, fr.fn, fr.self_val))
        self.frames[-1].nonlocals = set()
        try:
            if isinstance(it.len, int) and it.len <= 64:
                out = []
                for j in range(it.len):
                    self.assign(g.target, it.at(j))
                    if all(self.branch_pure(c) for c in g.ifs):
                        out.append(self.ev(elt))
                return VList(("c", out))
            m = self.mark()
            try:
                return self.comp_sym(it, g, elt, node)
            except NeedFork:
                if self.pure:
                    raise
                self.rollback(m)
        finally:
            self.frames.pop()
        return self.comp_loop(node, elt, it)

    filter_loops = False        # filtering comprehensions are treated as loops (the contract's invariants apply)

    def comp_loop(self, node, elt, it=None):
        """The comprehension as the loop it abbreviates: tmp = []; for t in iter: if c: tmp.append(elt)."""
        if self.pure:
            raise Unsupported("comprehension needs case split (line %d)" % node.lineno)
        loop = getattr(node, "_as_loop", None)
        if loop is None:
            pos = dict(lineno=node.lineno, col_offset=node.col_offset)
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(".comp", ast.Load(), **pos), "append", ast.Load(), **pos), [elt], [], **pos), **pos)
            for k, g in reversed(list(enumerate(node.generators))):
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [], **pos)
                body = ast.For(g.target, g.iter, [body], [], lineno=node.lineno, col_offset=node.col_offset * 10 + k)
            loop = node._as_loop = body
        env = Env(self.frame.env)
        fr = self.frame
        self.frames.append(Frame(env, fr.mod, fr.cls, fr.fn, fr.self_val))
        self.frames[-1].nonlocals = set()
        try:
            out = VList(("c", []))
            env.d[".comp"] = out
            if it is not None:
                self.sym_loop(loop, it)
            else:
                self.st_For(loop)
            return out
        finally:
            self.frames.pop()

    def branch_pure(self, c):
        return self.branch(self.cond(c)) if not self.pure else self.branch(self.cond(c))

    def comp_sym(self, it, g, elt, node):
        self.nf += 1
        j = z3.Int("j!c%d" % self.nf)
        n = zi(it.len)
        bulk = {"j": j, "n": n, "base": self.st.d.get("alloc"), "items": []} if not self.pure and not g.ifs and "alloc" in self.st.d else None
        self.pure.append({"vars": [j], "guards": [z3.And(j >= 0, j < n)], "bulk": bulk})
        npop = 1
        saved_set = self.set
        try:
            env = self.frame.env
            self.assign_pure(g.target, it.at(j))
            conds = []
            for c in g.ifs:
                t = self.cond(c)
                conds.append(t)
                self.pure.append({"vars": [], "guards": [t]})
                npop += 1
            v = self.ev(elt)
            t = self.type_of(v)
            if isinstance(v, VDict) and self.dct(v) == ("c", {}) and bulk:
                v = self.meta_of_dict(v)
                t = TMeta
            if not self.complete(t):
                raise Unsupported("comprehension element type %s (line %d)" % (t, node.lineno))
            body = self.box(t, v)
        finally:
            for _ in range(npop):
                self.pure.pop()
        sub = lambda e, k: z3.substitute(e, (j, zi(k)))
        if bulk and bulk["items"]:
            self.bulk_alloc(bulk, sub)
        c = AND(*conds)
        if c is True:
            return VList(("s", n, lambda k: sub(body, k), t, None))
        c = zb(c)
        m = self.fresh("flen", I)
        src, inv = self.fresh("fsrc", z3.ArraySort(I, I)), self.fresh("finv", z3.ArraySort(I, I))
        a, b = z3.Int("a!f"), z3.Int("b!f")
        sa = z3.Select(src, a)
        self.fact(z3.And(m >= 0, m <= n))
        self.fact(forall(a, IMP(z3.And(0 <= a, a < m), z3.And(0 <= sa, sa < n, sub(c, sa), z3.Select(inv, sa) == a)), sa))
        self.fact(forall([a, b], IMP(z3.And(0 <= a, a < b, b < m), sa < z3.Select(src, b)), (sa, z3.Select(src, b))))
        ij = z3.Select(inv, j)
        pats = self.pattern_for(body, j)
        cf = IMP(z3.And(0 <= j, j < n, c), z3.And(0 <= ij, ij < m, z3.Select(src, ij) == j))
        self.fact(forall(j, cf, *([ij] + pats)))
        r = VList(("s", m, lambda k: sub(body, z3.Select(src, zi(k))), t, None))
        return r

    def bulk_alloc(self, bulk, sub):
        """The dictionaries allocated by a comprehension, one per iteration and allocation site."""
        base, n = bulk["base"], bulk["n"]
        H = self.st.d["Hmeta"]
        H2 = self.fresh("Hmeta", H.sort())
        r, k = z3.Int("r!ba"), z3.Int("k!ba")
        end = base + len(bulk["items"]) * n
        self.fact(forall(r, IMP(r < base, z3.Select(H2, r) == z3.Select(H, r)), z3.Select(H2, r)))
        self.fact(forall(r, z3.Select(H2, r) != NOMETA, z3.Select(H2, r)))
        for q, c in enumerate(bulk["items"]):
            b = base + q * n
            self.fact(forall(r, IMP(z3.And(b <= r, r < b + n), z3.Select(H2, r) == sub(c, r - b)), z3.Select(H2, r)))
            self.fact(forall(k, IMP(z3.And(0 <= k, k < n), z3.And(z3.Select(H2, b + k) == sub(c, k), z3.Not(client(b + k)))), z3.Select(H2, b + k)))
        self.fact(forall(r, IMP(z3.And(base <= r, r < end), z3.Not(client(r))), client(r)))
        self.set(self.st, "Hmeta", H2)
        self.set(self.st, "alloc", z3.simplify(end))

    def pattern_for(self, e, j):
        """Select terms over j usable as a trigger."""
        st, out = [e], []
        while st and not out:
            x = st.pop()
            if z3.is_select(x) and x.arg(1).eq(j):
                out.append(x)
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and any(a.eq(j) for a in x.children()):
                out.append(x)
            elif z3.is_app(x):
                st.extend(x.children())
        return out

    def assign_pure(self, target, v):
        if isinstance(target, ast.Name):
            self.frame.env.d[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            v = self.unopt(v)
            vals = list(v) if isinstance(v, tuple) else None
            if vals is None or len(vals) != len(target.elts):
                raise Unsupported("destructuring in comprehension")
            for t, x in zip(target.elts, vals):
                self.assign_pure(t, x)
        else:
            raise Unsupported("comprehension target")

    # ------------------------------------------------------------- assignment
    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            vals = self.concrete_iter(self.unopt(v, target), len(target.elts))
            if len(vals) != len(target.elts):
                self.implicit_raise("ValueError", "unpack", target)
            for t, x in zip(target.elts, vals):
                self.assign(t, x)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.unopt(self.ev(target.value), target), target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            c = self.unopt(self.ev(target.value), target)
            self.setitem(c, self.ev(target.slice), v, target)
        else:
            raise Unsupported("assignment target %s" % type(target).__name__)

    def setattr(self, obj, name, v, node=None):
        if isinstance(obj, VObj):
            self.set(obj, name, v)
        else:
            raise Unsupported("attribute assignment on %s" % type(obj).__name__)

    def setitem(self, c, ix, v, node=None):
        if isinstance(c, VDict):
            self.dict_set(c, self.unopt(ix, node), v)
        elif isinstance(c, VList):
            if isinstance(ix, slice):
                raise Unsupported("slice assignment (line %d)" % node.lineno)
            i = self.index(ix, self.list_len(c), node)
            s = self.lst(c)
            if s[0] == "c" and isinstance(i, int):
                l = list(s[1])
                l[i] = v
                self.write(c, ("c", l))
            else:
                s = self.sym_list(s, self.type_of(v))
                if isinstance(s[3], (TList, TDict, TSet)):
                    self.bump(c)
                self.write(c, self.list_store(s, zi(i), self.box(s[3], v)))
                self.adopt(c, zi(i), v, s[3])
        elif isinstance(c, VArr):
            self.arr_setitem(c, ix, v, node)
        elif isinstance(c, VConf):
            self.set(c, ix, (True, v))
        elif isinstance(c, VMeta):
            self.meta_set(c, ix, v)
        else:
            self.opaque_setitem(c, ix, v, node)

    # ------------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(st).__name__, st.lineno))
        m(st)

    def st_Pass(self, st):
        pass

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        op = BIN[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, st)
            v = self.ev(st.value)
            if isinstance(cur, VList) and op == "+":
                self.list_extend(cur, v)
                return
            if isinstance(cur, VArr):
                self.inplace(op, cur, v, st)
                return
            if isinstance(cur, (VSet, VDict)):
                self.write(cur, self.binop(op, cur, v, st).d["s"])
                return
            self.assign_name(t.id, self.binop(op, cur, v, st))
        elif isinstance(t, ast.Attribute):
            o = self.unopt(self.ev(t.value), st)
            cur = self.getattr(o, t.attr, st)
            v = self.ev(st.value)
            if isinstance(cur, VList) and op == "+":
                self.list_extend(cur, v)
                return
            if isinstance(cur, VArr):
                self.inplace(op, cur, v, st)
                return
            if isinstance(cur, (VSet, VDict)):
                self.write(cur, self.binop(op, cur, v, st).d["s"])
                return
            self.setattr(o, t.attr, self.binop(op, cur, v, st), st)
        else:
            c = self.unopt(self.ev(t.value), st)
            ix = self.ev(t.slice)
            if isinstance(c, VArr):
                cur = self.arr_getitem(c, ix, st)
            else:
                class _C:
                    pass
                cur = self.getitem_val(c, ix, st)
            v = self.ev(st.value)
            if isinstance(cur, VArr) and not isinstance(c, VArr):
                self.inplace(op, cur, v, st)
                return
            self.setitem(c, ix, self.binop(op, cur, v, st), st)

    def getitem_val(self, c, ix, node):
        if isinstance(c, VList):
            return self.list_get(c, self.index(ix, self.list_len(c), node))
        if isinstance(c, VDict):
            return self.dict_get(c, ix, node)
        raise Unsupported("augmented item assignment (line %d)" % node.lineno)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.unset(self.frame.env, t.id)
            elif isinstance(t, ast.Subscript):
                c = self.unopt(self.ev(t.value), st)
                ix = self.ev(t.slice)
                if isinstance(c, VDict):
                    self.dict_del(c, ix, st)
                elif isinstance(c, VList) and not isinstance(ix, slice):
                    s = self.lst(c)
                    i = self.index(ix, self.list_len(c), st)
                    s = self.sym_list(s)
                    self.bump(c)
                    self.write(c, self.list_delete_at(s, zi(i)))
                elif isinstance(c, VConf):
                    self.need(self.conf_has(c, ix), "KeyError", st)
                    self.set(c, ix, (False, None))
                else:
                    raise Unsupported("del (line %d)" % st.lineno)
            else:
                raise Unsupported("del (line %d)" % st.lineno)

    def st_If(self, st):
        c = self.cond(st.test)
        if c if isinstance(c, bool) else self.branch(c):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def st_Return(self, st):
        raise ReturnEx(self.ev(st.value) if st.value is not None else None)

    def st_Break(self, st):
        raise BreakEx()

    def st_Continue(self, st):
        raise ContinueEx()

    def st_Raise(self, st):
        if st.exc is None:
            if not self.excstack:
                raise Unsupported("bare raise")
            raise PyRaise(self.excstack[-1], st.lineno)
        v = self.ev(st.exc)
        if isinstance(v, (ClassInfo,)):
            v = VExc(v, ())
        elif isinstance(v, VLib):
            v = VExc(v.name.split(".")[-1], ())
        if not isinstance(v, VExc):
            raise Unsupported("raise of %s" % type(v).__name__)
        raise PyRaise(v, st.lineno)

    def st_Assert(self, st):
        if not self.cond(st.test):
            raise PyRaise(VExc("AssertionError"), st.lineno)

    def st_Import(self, st):
        for nm, d in import_bindings(self.frame.mod, st):
            self.assign_name(nm, self.import_value(d))

    def import_value(self, d):
        v = self.repo.dotted(d)
        if isinstance(v, tuple) and v and v[0] == "expr":
            return self.module_expr(v)
        return v

    st_ImportFrom = st_Import

    def st_Global(self, st):
        raise Unsupported("global")

    def st_Nonlocal(self, st):
        self.frame.nonlocals |= set(st.names)

    def st_FunctionDef(self, st):
        self.assign_name(st.name, VFunc(st, self.frame.mod, self.frame.env, self.frame.cls))

    def st_ClassDef(self, st):
        """A class defined inside a function (no free local variables may be used by its methods)."""
        if st.decorator_list or st.keywords:
            raise Unsupported("decorated local class (line %d)" % st.lineno)
        from .repo import ClassInfo
        mod = self.frame.mod
        ci = mod.cache.get(("local class", st.lineno))
        if ci is None:
            ci = mod.cache[("local class", st.lineno)] = ClassInfo(st.name, mod, st)
        self.assign_name(st.name, ci)

    def st_With(self, st):
        vals = []
        for it in st.items:
            v = self.ev(it.context_expr)
            cm = self.enter(v, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm)
            vals.append(v)
        try:
            self.block(st.body)
        except (ReturnEx, BreakEx, ContinueEx, PyRaise):
            for v in reversed(vals):
                self.leave(v)
            raise
        for v in reversed(vals):
            self.leave(v)

    def enter(self, v, node):
        if isinstance(v, VCtx):
            return v.value if v.value is not None else v
        if isinstance(v, VObj) and isinstance(v.cls, ClassInfo):
            return self.call(self.getattr(v, "__enter__", node), [], {}, node)
        return v

    def leave(self, v):
        if isinstance(v, VObj) and isinstance(v.cls, ClassInfo):
            self.call(self.getattr(v, "__exit__"), [None, None, None], {})

    def st_Try(self, st):
        def body():
            n = len(self.frames)
            try:
                self.block(st.body)
            except PyRaise as e:
                del self.frames[n:]
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type)):
                        if h.name:
                            self.assign_name(h.name, e.exc)
                        self.excstack.append(e.exc)
                        try:
                            self.block(h.body)
                        finally:
                            self.excstack.pop()
                        return
                raise
            self.block(st.orelse)
        if not st.finalbody:
            body()
            return
        try:
            body()
        except (ReturnEx, BreakEx, ContinueEx, PyRaise):
            self.block(st.finalbody)
            raise
        self.block(st.finalbody)

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        c = exc.cls
        if isinstance(typ, ClassInfo):
            return isinstance(c, ClassInfo) and c.is_sub(typ)
        name = typ.name.split(".")[-1]
        if isinstance(c, ClassInfo):
            return c.is_sub(name)
        a, b = getattr(builtins, c, None), getattr(builtins, name, None)
        if name == "JSONDecodeError" or c == "JSONDecodeError":
            return name == c or (c == "JSONDecodeError" and name in ("ValueError", "Exception", "BaseException"))
        if a is None or b is None:
            return name in ("Exception", "BaseException") or name == c
        return issubclass(a, b)

    # ------------------------------------------------------------- calls
    def ev_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            return VMethod(self.frame.self_val, ("super", self.frame.cls))
        fn = self.ev(f)
        if isinstance(fn, VLib) and fn.name in ("builtins.any", "builtins.all", "builtins.sum", "builtins.next", "builtins.max", "builtins.min") \
                and node.args and isinstance(node.args[0], ast.GeneratorExp):
            r = self.genexp_call(fn.name, node)
            if r is not NotImplemented:
                return r
        args = self.ev_elts(node.args)
        kw = {}
        for k in node.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                self.kwargs_from(kw, v)
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, node)

    def kwargs_from(self, kw, v):
        if isinstance(v, VDict) and self.dct(v)[0] == "c":
            kw.update(self.dct(v)[1])
        else:
            kw["**"] = v

    def genexp_call(self, name, node):
        return NotImplemented

    def call(self, fn, args, kw, node=None):
        fn = self.unopt(fn, node)
        if isinstance(fn, VFunc):
            return self.call_func(fn, args, kw, node)
        if isinstance(fn, ClassInfo):
            return self.instantiate(fn, args, kw, node)
        if isinstance(fn, VPy):
            return fn.fn(self, args, kw, node)
        if isinstance(fn, VLib):
            return self.call_lib(fn.name, args, kw, node)
        if isinstance(fn, VMethod):
            return self.call_method(fn.recv, fn.name, args, kw, node)
        if isinstance(fn, VOpaque):
            return self.opaque_call(fn, args, kw, node)
        raise Unsupported("call of %s (line %s)" % (type(fn).__name__, getattr(node, "lineno", "?")))

    def qual_of(self, fn):
        n = getattr(fn.node, "name", "<lambda>")
        return "%s.%s.%s" % (fn.mod_name, fn.cls.name, n) if fn.cls else "%s.%s" % (fn.mod_name, n)

    def call_func(self, fn, args, kw, node=None):
        q = self.func_qual(fn)
        c = self.contracts.get(q)
        if c is not None and q not in self.skip_contract:
            self.assumed.add(q)
            return c(self, fn.bound, args, kw, node)
        if fn.env is None:
            self.inlined.add(q)
        if self.pure:
            m = self.mark()
            try:
                return self.run_func(fn, args, kw, node)
            except NeedFork:
                self.rollback(m)
            return self.merge_paths(lambda: self.run_func(fn, args, kw, node))
        return self.run_func(fn, args, kw, node)

    def func_qual(self, fn):
        n = getattr(fn.node, "name", "<lambda>")
        return (fn.cls.qual + "." + n) if fn.cls is not None else fn.module.name + "." + n

    def run_func(self, fn, args, kw, node=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported("recursion too deep")
        if isinstance(fn.node, ast.AsyncFunctionDef):
            raise Unsupported("async function")
        env = Env(fn.env)
        if fn.bound is not None:
            args = [fn.bound] + list(args)
        fr = Frame(env, fn.module, fn.cls, fn, fn.bound)
        fr.nonlocals = set()
        self.bind(fn, env, list(args), dict(kw), node)
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body)
            for x in ast.walk(fn.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported("generator function")
            try:
                self.block(fn.node.body)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            del self.frames[depth - 1:]

    def bind(self, fn, env, args, kw, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        vals = {}
        for i, x in enumerate(args):
            if i < len(names):
                vals[names[i]] = x
            elif a.vararg is None:
                self.implicit_raise("TypeError", "too many arguments", node)
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        star = kw.pop("**", None)
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.implicit_raise("TypeError", "multiple values", node)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.implicit_raise("TypeError", "unexpected keyword %s" % k, node)
        if star is not None:
            raise Unsupported("call with ** of a symbolic dictionary")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict(("c", extra))
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in vals:
                fr = Frame(Env(fn.env), fn.module, fn.cls, None)
                fr.nonlocals = set()
                self.frames.append(fr)
                try:
                    vals[n] = self.ev(d)
                finally:
                    self.frames.pop()
        for n in names + kwonly:
            if n not in vals:
                self.implicit_raise("TypeError", "missing argument %s" % n, node)
        env.d.update(vals)

    def instantiate(self, ci, args, kw, node=None):
        if ci.is_exception():
            return VExc(ci, tuple(args))
        h = self.contracts.get(ci.qual)
        if h is not None:
            return h(self, ci, args, kw, node)
        for b in ci.lib_bases():
            if b in ("enum.Enum", "typing.NamedTuple"):
                raise Unsupported("instantiation of %s" % b)
        o = VObj(ci)
        if any(isinstance(d, ast.Name) and d.id == "dataclass" or isinstance(d, ast.Call) and getattr(d.func, "id", "") == "dataclass"
               for d in ci.node.decorator_list):
            return self.dataclass(ci, o, args, kw, node)
        c, m = ci.find("__init__")
        if m is not None:
            self.call_func(VFunc(m, c.mod, None, c, o), args, kw, node)
        return o

    def dataclass(self, ci, o, args, kw, node):
        fields = []
        for st in ci.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                fields.append((st.target.id, st.value))
        args = list(args)
        for i, (n, d) in enumerate(fields):
            if i < len(args):
                self.set(o, n, args[i])
            elif n in kw:
                self.set(o, n, kw[n])
            elif d is not None:
                fr = Frame(Env(), ci.mod, ci, None)
                fr.nonlocals = set()
                self.frames.append(fr)
                try:
                    self.set(o, n, self.dc_default(d))
                finally:
                    self.frames.pop()
            else:
                self.implicit_raise("TypeError", "missing argument", node)
        c, m = ci.find("__post_init__")
        if m is not None:
            self.call_func(VFunc(m, c.mod, None, c, o), [], {}, node)
        return o

    def dc_default(self, d):
        if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "field":
            for k in d.keywords:
                if k.arg == "default_factory":
                    return self.call(self.ev(k.value), [], {})
                if k.arg == "default":
                    return self.ev(k.value)
        return self.ev(d)

    # ------------------------------------------------------------- attributes
    def getattr(self, v, name, node=None):
        v = self.unopt(v, node)
        if isinstance(v, VMethod) and isinstance(v.name, tuple) and v.name[0] == "super":
            cur = v.name[1]
            for c in v.recv.cls.mro():
                if c.qual == cur.qual:
                    continue
                if c in cur.mro() and name in c.methods:
                    return VFunc(c.methods[name], c.mod, None, c, v.recv)
            return VPy(lambda ex, a, k, n: None, "object." + name)
        if isinstance(v, VObj):
            if name in v.d:
                x = v.d[name]
                if isinstance(x, VPoison):
                    raise Unsupported("attribute %s: %s" % (name, x.why))
                return x
            if isinstance(v.cls, ClassInfo):
                return self.class_attr(v.cls, name, v, node)
            h = self.ifaces.get(v.cls)
            if h is not None:
                return h(self, v, name, node)
            raise Unsupported("attribute %s of %s" % (name, v.cls))
        if isinstance(v, ClassInfo):
            if name == "__name__":
                return v.name
            return self.class_attr(v, name, None, node)
        if isinstance(v, VModule):
            x = self.repo.lookup(v.mod, name)
            if x is None:
                raise Unsupported("module attribute %s.%s" % (v.mod.name, name))
            if isinstance(x, tuple):
                return self.module_expr(x)
            return x
        if isinstance(v, VLib):
            c = self.lib_const(v.name + "." + name)
            if (v.name, name) == ("numpy", "newaxis"):
                return None
            return c if c is not None else VLib(v.name + "." + name)
        if isinstance(v, VArr):
            return self.arr_attr(v, name, node)
        if is_sort(v, PathS):
            return self.path_attr(v, name, node)
        if isinstance(v, VOpaque):
            h = self.ifaces.get(v.kind)
            if h is not None:
                return h(self, v, name, node)
            return self.opaque_attr(v, name, node)
        if isinstance(v, VExc):
            return self.fresh("excattr", Str)
        if v is None:
            return self.implicit_raise("AttributeError", "None has no attribute " + name, node)
        return VMethod(v, name)

    def lib_const(self, name):
        return None

    def class_attr(self, ci, name, obj, node=None):
        c, m = ci.find(name)
        if m is not None:
            decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") for d in m.decorator_list]
            if "staticmethod" in decs:
                return VFunc(m, c.mod, None, c, None)
            if "classmethod" in decs:
                return VFunc(m, c.mod, None, c, ci)
            f = VFunc(m, c.mod, None, c, obj)
            if "property" in decs:
                return self.call_func(f, [], {}, node)
            return f
        c, a = ci.find_attr(name)
        if a is not None:
            fr = Frame(Env(), c.mod, c, None)
            fr.nonlocals = set()
            self.frames.append(fr)
            try:
                return self.ev(a)
            finally:
                self.frames.pop()
        if name == "__class__" and obj is not None:
            return ci
        if name == "__name__":
            return ci.name
        return self.implicit_raise("AttributeError", name, node)


_old = Frame.__init__


def _init(self, *a, **k):
    _old(self, *a, **k)
    self.nonlocals = set()


Frame.__init__ = _init
