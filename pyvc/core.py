"""Sorts, types and symbolic values."""
import itertools
import z3


class Unsupported(Exception):
    """The verifier cannot translate a construct (never a verdict)."""


class PathEnd(Exception):
    """The current path is finished (loop body verified, or infeasible)."""


class NeedFork(Exception):
    """A symbolic branch was met while evaluating in pure (merging) mode."""


Str = z3.DeclareSort("Str")
Arr = z3.DeclareSort("Arr")      # contents of a numpy array
MetaV = z3.DeclareSort("MetaV")  # contents of an opaque dictionary
Obj = z3.DeclareSort("Obj")      # any other opaque python value
PathS = z3.DeclareSort("PathS")  # file-system path
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

_fn = {}


def F(name, *sorts):
    """Uninterpreted function, cached by name."""
    key = (name,) + tuple(s.name() if not isinstance(s, str) else s for s in sorts)
    if key not in _fn:
        _fn[key] = z3.Function(name, *sorts)
    return _fn[key]


slen = F("slen", Str, I)
sconcat = F("sconcat", Str, Str, Str)
substr = F("substr", Str, I, I, Str)
adim = F("adim", Arr, I, I)        # adim(a, axis)
at1 = F("at1", Arr, I, R)
at2 = F("at2", Arr, I, I, R)
at3 = F("at3", Arr, I, I, I, R)
arow = F("arow", Arr, I, Arr)
adot = F("adot", Arr, Arr, R)
anorm = F("anorm", Arr, R)
client = F("client", I, B)          # array / dict reference known to the caller
rowref = F("rowref", I, I, I)
NOMETA = z3.Const("NOMETA", MetaV)
NOARR = z3.Const("NOARR", Arr)
INF = z3.Const("INF", R)

_lits = {}


def lit(s):
    """Constant of sort Str for a python string literal."""
    if s not in _lits:
        _lits[s] = z3.Const("str!%d!%s" % (len(_lits), "".join(c if c.isalnum() else "_" for c in s[:20])), Str)
    return _lits[s]


def lit_axioms():
    out = []
    if len(_lits) > 1:
        out.append(z3.Distinct(*_lits.values()))
    for s, c in _lits.items():
        out.append(slen(c) == len(s))
    return out


# ------------------------------------------------------------------ types
class T:
    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def sort(self):
        raise Unsupported("no sort for type %s" % self.name)


class TBase(T):
    def __init__(self, name, sort):
        self.name, self._s = name, sort

    def sort(self):
        return self._s


TInt, TReal, TBool, TStr = TBase("Int", I), TBase("Real", R), TBase("Bool", B), TBase("Str", Str)
TArr, TMeta = TBase("Arr", I), TBase("Meta", I)   # references into the heap
TPath = TBase("Path", PathS)
TNone = TBase("None", I)
TUnknown = TBase("?", I)


class TObj(T):
    """Opaque object; kind selects an interface contract."""

    def __init__(self, kind="Any"):
        self.kind, self.name = kind, "Obj<%s>" % kind

    def sort(self):
        return Obj


_dts = {}


def _dt(name, ctors):
    if name not in _dts:
        d = z3.Datatype(name)
        for c in ctors:
            d.declare(*c)
        _dts[name] = d.create()
    return _dts[name]


class TOpt(T):
    def __init__(self, t):
        self.t, self.name = t, "Opt<%s>" % t.name

    def dt(self):
        return _dt(self.name, [("none_" + self.name,), ("some_" + self.name, ("val_" + self.name, self.t.sort()))])

    def sort(self):
        return self.dt()

    def none(self):
        return self.dt().constructor(0)()

    def some(self, x):
        return self.dt().constructor(1)(x)

    def is_none(self, x):
        return self.dt().recognizer(0)(x)

    def val(self, x):
        return self.dt().accessor(1, 0)(x)


class TTup(T):
    def __init__(self, *ts):
        self.ts = ts
        self.name = "Tup<%s>" % ",".join(t.name for t in ts)

    def dt(self):
        return _dt(self.name, [("mk_" + self.name,) + tuple(("f%d_%s" % (i, self.name), t.sort()) for i, t in enumerate(self.ts))])

    def sort(self):
        return self.dt()


class TRec(T):
    """Dictionary with a fixed set of string keys."""

    def __init__(self, **fields):
        self.fields = dict(sorted(fields.items()))
        self.name = "Rec<%s>" % ",".join("%s:%s" % (k, t.name) for k, t in self.fields.items())

    def dt(self):
        return _dt(self.name, [("mk_" + self.name,) + tuple(("%s_%s" % (k, self.name), t.sort()) for k, t in self.fields.items())])

    def sort(self):
        return self.dt()


class TInst(T):
    """Immutable instance of a repository class, boxed with its fields."""

    def __init__(self, cls, **fields):
        self.cls = cls
        self.fields = dict(sorted(fields.items()))
        self.name = "Inst<%s>" % cls

    def dt(self):
        return _dt(self.name, [("mk_" + self.name,) + tuple(("%s_%s" % (k, self.name), t.sort()) for k, t in self.fields.items())])

    def sort(self):
        return self.dt()


class TList(T):
    def __init__(self, t):
        self.t, self.name = t, "List<%s>" % (t.name if t else "?")

    def dt(self):
        return _dt(self.name, [("mk_" + self.name, ("len_" + self.name, I), ("data_" + self.name, z3.ArraySort(I, self.t.sort())))])

    def sort(self):
        return self.dt()


class TDict(T):
    def __init__(self, k, v, default=None):
        self.k, self.v, self.default = k, v, default
        self.name = "Dict<%s,%s>" % (k.name if k else "?", v.name if v else "?")

    def dt(self):
        return _dt(self.name, [("mk_" + self.name, ("dom_" + self.name, z3.ArraySort(self.k.sort(), B)),
                                ("map_" + self.name, z3.ArraySort(self.k.sort(), self.v.sort())))])

    def sort(self):
        return self.dt()


class TSet(T):
    def __init__(self, t):
        self.t, self.name = t, "Set<%s>" % (t.name if t else "?")

    def dt(self):
        return _dt(self.name, [("mk_" + self.name, ("dom_" + self.name, z3.ArraySort(self.t.sort(), B)))])

    def sort(self):
        return self.dt()


class TConf(T):
    """A configuration dictionary with declared (optional) keys."""

    def __init__(self, **keys):
        self.keys, self.name = keys, "Conf"


class TClass(T):
    """A repository class instance kept as a python-level object."""

    def __init__(self, cls):
        self.cls, self.name = cls, "Class<%s>" % cls


class TIface(T):
    def __init__(self, kind):
        self.kind, self.name = kind, "Iface<%s>" % kind


class TMat(T):
    """n-dimensional float array held by value."""

    def __init__(self, nd, dtype="f"):
        self.nd, self.dtype = nd, dtype
        self.name = "Mat%d%s" % (nd, dtype)

    def sort(self):
        return Arr


class TConst(T):
    def __init__(self, v):
        self.v, self.name = v, "Const<%r>" % (v,)


# ------------------------------------------------------------------ values
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_sort(x, s):
    return is_z3(x) and x.sort() == s


class Val:
    """Mutable python-level value; every cell lives in .d and is written through Exec.set."""
    counter = 0
    registry = {}
    parent = None       # (container, key term, version) when it lives inside another container
    shared = False

    def __init__(self):
        self.d = {}
        self.sid = Val.counter
        Val.registry[self.sid] = self
        Val.counter += 1


class VOpt:
    def __init__(self, isnone, value):
        self.isnone, self.value = isnone, value


class VArr(Val):
    """numpy array.  d['s'] = (shape, elem closure, dtype, box term or None, rows closure or None);
    ref = heap reference term when the array is known to the caller or held in a container."""

    base = None         # (array, index) for a view
    mk = None           # recomputes a view after a write to its base
    wver = 0            # number of writes

    def __init__(self, shape, elem, dtype="f", box=None, rows=None, ref=None):
        super().__init__()
        self.d = {"s": (list(shape), elem, dtype, box, rows)}
        self.ref = ref


class VMeta:
    """dictionary known only by reference (contents opaque)."""

    def __init__(self, ref):
        self.ref = ref


class VList(Val):
    """d['s'] = ('c', [values])  or  ('s', len, at: index term -> boxed term, elem type)."""

    def __init__(self, s):
        super().__init__()
        self.d = {"s": s}


class VDict(Val):
    """d['s'] = ('c', {const key: value})  or  ('s', dom, map, size, ktype, vtype)."""

    def __init__(self, s, default=None):
        super().__init__()
        self.d = {"s": s}
        self.default = default


class VSet(Val):
    """d['s'] = ('c', [values]) or ('s', dom, size, type)."""

    def __init__(self, s):
        super().__init__()
        self.d = {"s": s}


class VConf(Val):
    """Configuration dictionary with declared optional keys: d[key] = (present, value)."""

    def __init__(self, keys=None, name="config", types=None):
        super().__init__()
        self.d = dict(keys or {})
        self.name = name
        self.types = types or {}


class VObj(Val):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.d = dict(fields or {})


class Env(Val):
    def __init__(self, parent=None):
        super().__init__()
        self.outer = parent


class VOpaque:
    """Opaque term of sort Obj with an interface kind."""

    def __init__(self, term, kind="Any"):
        self.term, self.kind = term, kind


class VFunc:
    def __init__(self, node, module, env=None, cls=None, bound=None, defaults=None):
        self.node, self.module, self.env, self.cls, self.bound = node, module, env, cls, bound
        self.defaults = defaults


class VPy:
    """Callable implemented by the verifier."""

    def __init__(self, fn, name="py"):
        self.fn, self.name = fn, name


class VLib:
    """Library entity addressed by dotted name."""

    def __init__(self, name):
        self.name = name


class VMethod:
    """Method of a builtin/library value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class VExc:
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, args, cause


class PyRaise(Exception):
    def __init__(self, exc, line=None):
        super().__init__(str(exc.cls))
        self.exc, self.line = exc, line


class VIter:
    """Finite iterable: length term/int, at(index term)->value; src = (container, state) that must not change."""
    key = None              # of an iteration over dictionary values: the key at an index

    def __init__(self, length, at, src=None, kind="iter", info=None):
        self.len, self.at, self.src, self.kind, self.info = length, at, src, kind, info


class VPoison:
    def __init__(self, why):
        self.why = why


class VCtx:
    """Context manager value (lock, file, executor ...)."""

    def __init__(self, value=None, kind="ctx", data=None):
        self.value, self.kind, self.data = value, kind, data


class VModule:
    def __init__(self, mod):
        self.mod = mod
