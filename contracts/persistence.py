"""Persistence managers (P01-P03): file contents as terms, paths as terms, the log as a sequence of lines."""
from .common import *
from .storage import havoc_rest

TEN, INC = "valori.persistence.tensor.TensorPersistence", "valori.persistence.incremental.IncrementalPersistence"
PERR = "valori.exceptions.PersistenceError"
S = z3.Select
PJ = lambda d, s: F("pjoin", PathS, Str, PathS)(d, s)
EMPTY = lambda: z3.Const("empty_file", Obj)
APPEND = lambda c, b: F("file_append", Obj, Obj, Obj)(c, b)
PICKLE, UNPICKLE = (lambda x: F("pickle_of", Obj, Obj)(x)), (lambda b: F("pickled_value", Obj, Obj)(b))
ISPICKLE, PICKLABLE = (lambda b: F("is_pickle", Obj, B)(b)), (lambda x: F("picklable", Obj, B)(x))
ISNPZ, NPZGET, NPZHAS = (lambda b: F("is_npz", Obj, B)(b)), (lambda b, k: F("npz_get", Obj, Str, Obj)(b, k)), (lambda b, k: F("npz_has", Obj, Str, B)(b, k))
NDOF, NDLIST, ARRAYABLE = (lambda x: F("nd_of", Obj, Obj)(x)), (lambda x: F("nd_list", Obj, Obj)(x)), (lambda x: F("arrayable", Obj, B)(x))
TEXTB, BTEXT = (lambda s: F("text_bytes", Str, Obj)(s)), (lambda b: F("bytes_text", Obj, Str)(b))
NLINES, LINE, CLOSED = (lambda c: F("file_nlines", Obj, I)(c)), (lambda c, i: F("file_line", Obj, I, Str)(c, i)), (lambda c: F("file_closed", Obj, B)(c))
JOK, JHAS, JINT = (lambda s: F("json_ok", Str, B)(s)), (lambda s, k: F("json_has", Str, Str, B)(s, k)), (lambda s, k: F("json_int", Str, Str, I)(s, k))
ONELINE = lambda s: F("one_line", Str, B)(s)
ISCK, CKNUM = (lambda s: F("is_checkpoint_name", Str, B)(s)), (lambda s: F("checkpoint_number", Str, I)(s))
PNAME = lambda p: F("pname", PathS, Str)(p)
NL = "\n"


def ckname(n):
    return sconcat(lit("checkpoint_"), sconcat(F("int2str_", I, Str)(n), lit(".pkl")))


class Files:
    """Library contracts of pickle, numpy, json and files used by the persistence managers."""

    def __init__(self, ex):
        self.ex = ex
        self.witnesses = []
        setup(ex, fs=True)
        ex.strict_cast = True
        x, b, s, k = z3.Const("x!pf", Obj), z3.Const("b!pf", Obj), z3.Const("s!pf", Str), z3.Const("k!pf", Str)
        ax = ex.raw_fact
        ax(forall(b, APPEND(EMPTY(), b) == b, APPEND(EMPTY(), b)))
        ax(forall(x, z3.And(ISPICKLE(PICKLE(x)), UNPICKLE(PICKLE(x)) == x), PICKLE(x)))
        ax(forall(x, NDLIST(NDOF(x)) == x, NDOF(x)))
        ax(forall(s, BTEXT(TEXTB(s)) == s, TEXTB(s)))
        # an empty file is neither a pickle nor an archive nor JSON
        ax(z3.And(z3.Not(ISPICKLE(EMPTY())), z3.Not(ISNPZ(EMPTY())), z3.Not(JOK(BTEXT(EMPTY()))), NLINES(EMPTY()) == 0, CLOSED(EMPTY())))
        # numbers in names
        i = z3.Int("i!pf")
        ax(forall(i, z3.And(F("is_int_str", Str, B)(F("int2str_", I, Str)(i)), F("str2int_", Str, I)(F("int2str_", I, Str)(i)) == i), F("int2str_", I, Str)(i)))
        ax(forall(i, IMP(i >= 0, z3.And(ISCK(ckname(i)), CKNUM(ckname(i)) == i, F("simple_name", Str, B)(ckname(i)))), ckname(i)))
        ax(forall(s, IMP(ISCK(s), z3.And(s == ckname(CKNUM(s)), CKNUM(s) >= 0)), CKNUM(s)))
        for n in ("operations.log", "checkpoint.json"):
            ax(z3.And(F("simple_name", Str, B)(lit(n)), z3.Not(ISCK(lit(n)))))
        # the number part of a checkpoint file's stem, however it is cut out
        p = z3.Const("p!pf", PathS)
        stem = F("pstem", PathS, Str)(p)
        num = F("int2str_", I, Str)(CKNUM(PNAME(p)))
        ck = ISCK(PNAME(p))
        key = F("split_split1", Str, Str, Obj)(stem, lit("_"))
        ax(forall(p, IMP(ck, z3.And(F("split_len", Obj, I)(key) == 2, S(F("split_arr", Obj, z3.ArraySort(I, Str))(key), 1) == num,
                                    S(F("split_arr", Obj, z3.ArraySort(I, Str))(key), 0) == lit("checkpoint"))), key))
        rep = F("str_replace", Str, Str, Str, Str)(stem, lit("checkpoint_"), lit(""))
        ax(forall(p, IMP(ck, rep == num), rep))
        cut = substr(stem, z3.IntVal(11), slen(stem))
        ax(forall(p, IMP(ck, z3.And(cut == num, slen(stem) >= 12)), stem))
        for nm in ("pickle_dumps", "pickle_dump", "pickle_loads", "pickle_load", "io_BytesIO", "numpy_savez", "numpy_savez_compressed", "numpy_load", "numpy_array", "numpy_asarray",
                   "json_dumps", "json_dump", "json_loads", "json_load", "builtins_open", "builtins_list"):
            old = getattr(ex, "lib_" + nm, None)
            setattr(ex, "lib_" + nm, getattr(self, nm) if nm != "builtins_list" else (lambda a, kw, node, old=old: self.builtins_list(a, kw, node, old)))
        ex.m_ctx_write, ex.m_ctx_read, ex.m_ctx_getvalue, ex.m_ctx_getbuffer = self.write, self.read, self.getvalue, self.getvalue
        ex.m_ctx_readlines = lambda v, a, kw, node: self.lines(v, node)
        ex.opaque_attr, ex.opaque_getitem, ex.opaque_contains, ex.opaque_iter = self.attr, self.getitem, self.contains, self.iter
        ex.fs_glob = self.glob
        ex.fs_write = self.fs_write
        pm = ex.path_method
        ex.path_method = lambda p, name, a, kw, node: self.path_method(pm, p, name, a, kw, node)
        ex.m_str_removeprefix = lambda s, a, kw, node: ex.str_method(s, "replace", [a[0], ""], {}, node) if a[0] == "checkpoint_" else self.unsup("removeprefix")
        ex.m_str_rsplit = lambda s, a, kw, node: ex.str_method(s, "split", [a[0]], {}, node) if a[0] == "_" else self.unsup("rsplit")

    def unsup(self, what):
        raise Unsupported(what)

    # -- contents
    def content(self, f):
        return f.data["cell"].d["content"] if f.kind == "buffer" else sel(self.ex.st.d["fdata"], f.data["path"])

    def fs_write(self, p, data):
        ex = self.ex
        for k, v in (("fexists", z3.BoolVal(True)), ("fdata", data)):
            a = ex.st.d[k]
            if z3.is_store(a) and a.arg(1).eq(p):
                a = a.arg(0)
            ex.set(ex.st, k, z3.Store(a, p, v))

    def put(self, f, c):
        if f.kind == "buffer":
            self.ex.set(f.data["cell"], "content", c)
        else:
            self.ex.fs_write(f.data["path"], c)

    def fork(self):
        if self.ex.pure:
            raise NeedFork()

    def path(self, p):
        p = self.ex.unopt(p)
        return F("path_of", Str, PathS)(self.ex.S(p)) if isstr(p) else p

    def builtins_open(self, args, kw, node):
        ex = self.ex
        p = self.path(args[0])
        if not is_sort(p, PathS):
            raise Unsupported("open of a non-path")
        mode = kw.get("mode", args[1] if len(args) > 1 else "r")
        self.fork()
        if mode[0] == "r":
            ex.need(ex.fexists(p), "FileNotFoundError", node)
        elif mode[0] == "w":
            ex.fs_write(p, EMPTY())
        elif mode[0] == "a":
            ex.fs_write(p, z3.If(sel(ex.st.d["fexists"], p), sel(ex.st.d["fdata"], p), EMPTY()))
        else:
            raise Unsupported("open mode " + mode)
        return VCtx(None, "file", {"path": p, "mode": mode})

    def io_BytesIO(self, args, kw, node):
        c = EMPTY()
        if args:
            c = args[0].term
        return VCtx(None, "buffer", {"cell": VObj("BytesIO", {"content": c}), "mode": "w+b"})

    def write(self, f, args, kw, node):
        ex = self.ex
        self.fork()
        x = ex.unopt(args[0])
        if f.kind not in ("file", "buffer") or f.data["mode"][0] == "r":
            raise Unsupported("write to " + f.kind)
        if isinstance(x, VOpaque) and x.kind == "bytes":
            b = x.term
        elif isstr(x):
            b = TEXTB(ex.S(x))
            self.text(self.content(f), ex.S(x), b)
        else:
            raise Unsupported("write of %s" % type(x).__name__)
        self.put(f, APPEND(self.content(f), b))
        return ex.fresh("written", I)

    def text(self, c, s, b):
        """Lines of the content after appending the text s."""
        ex = self.ex
        line = None
        if z3.is_app(s) and s.decl().eq(sconcat(lit("a"), lit("b")).decl()) and s.arg(1).eq(lit(NL)):
            line = s.arg(0)
        if line is None:
            return
        n, i = APPEND(c, b), z3.Int("i!tx")
        ex.fact(IMP(z3.And(CLOSED(c), ONELINE(line)), z3.And(NLINES(n) == NLINES(c) + 1, LINE(n, NLINES(c)) == line, CLOSED(n),
                                                             forall(i, IMP(z3.And(0 <= i, i < NLINES(c)), LINE(n, i) == LINE(c, i)), LINE(n, i)))))
        ex.fact(NLINES(c) >= 0)

    def read(self, f, args, kw, node):
        if args or f.kind not in ("file", "buffer"):
            raise Unsupported("partial read")
        c = self.content(f)
        if "b" in f.data["mode"]:
            return VOpaque(c, "bytes")
        return BTEXT(c)

    def getvalue(self, f, args, kw, node):
        return VOpaque(self.content(f), "bytes")

    def lines(self, f, node):
        if not (isinstance(f, VCtx) and f.kind == "file" and "b" not in f.data["mode"]):
            raise Unsupported("iteration over %s" % type(f).__name__)
        c = self.content(f)
        self.ex.fact(NLINES(c) >= 0)
        return VIter(NLINES(c), lambda j: LINE(c, zi(j)), kind="lines")

    def iter(self, v, node):
        if isinstance(v, VCtx):
            return self.lines(v, node)
        return type(self.ex).opaque_iter(self.ex, v, node)

    def path_method(self, old, p, name, args, kw, node):
        ex = self.ex
        if name == "touch":
            ex.fs_write(p, z3.If(sel(ex.st.d["fexists"], p), sel(ex.st.d["fdata"], p), EMPTY()))
            return None
        if name == "read_bytes":
            ex.need(ex.fexists(p), "FileNotFoundError", node)
            return VOpaque(S(ex.st.d["fdata"], p), "bytes")
        if name == "read_text":
            ex.need(ex.fexists(p), "FileNotFoundError", node)
            return BTEXT(S(ex.st.d["fdata"], p))
        if name in ("write_bytes", "write_text"):
            f = self.builtins_open([p, "wb" if name == "write_bytes" else "w"], {}, node)
            return self.write(f, args[:1], {}, node)
        if name in ("rename", "replace"):
            q = self.path(args[0])
            ex.need(ex.fexists(p), "FileNotFoundError", node)
            ex.fs_write(q, S(ex.st.d["fdata"], p))
            ex.set(ex.st, "fexists", z3.If(p == q, ex.st.d["fexists"], z3.Store(ex.st.d["fexists"], p, z3.BoolVal(False))))
            return q
        return old(p, name, args, kw, node)

    # -- checkpoint files
    def glob(self, d, pat, node):
        ex = self.ex
        if pat != "checkpoint_*.pkl":
            raise Unsupported("glob pattern " + pat)
        fe = ex.st.d["fexists"]
        g = F("ckset", fe.sort(), PathS, z3.ArraySort(PathS, B))(fe, d)
        p = z3.Const("p!gl", PathS)
        ex.fact(forall(p, S(g, p) == z3.And(through(fe, p), is_ck(d, p)), S(g, p)))
        ex.fact(forall(p, S(g, p) == z3.And(S(fe, p), is_ck(d, p)), S(fe, p)))
        ex.dom_facts(g)
        n, e = ex.enum(g)
        for w in self.witnesses:
            k = ex.fresh("position", I)
            ex.fact(IMP(z3.And(S(fe, w), is_ck(d, w)), z3.And(S(g, w), 0 <= k, k < n, S(e, k) == w)))
        return VIter(n, lambda j: S(e, zi(j)), kind="glob")

    # -- pickle
    def pickle_dumps(self, args, kw, node):
        ex = self.ex
        v = ex.unopt(args[0])
        if not isinstance(v, VOpaque):
            raise Unsupported("pickling %s" % type(v).__name__)
        self.fork()
        if not ex.branch(PICKLABLE(v.term)):
            raise PyRaise(VExc(("TypeError", "PicklingError", "AttributeError")[ex.choose(3)], ("cannot pickle",)), getattr(node, "lineno", None))
        return VOpaque(PICKLE(v.term), "bytes")

    def pickle_dump(self, args, kw, node):
        f = args[1] if len(args) > 1 else kw["file"]
        self.write(f, [self.pickle_dumps(args[:1], {}, node)], {}, node)

    def pickle_loads(self, args, kw, node):
        ex = self.ex
        self.fork()
        if not ex.branch(ISPICKLE(args[0].term)):
            raise PyRaise(VExc(("EOFError", "UnpicklingError")[ex.choose(2)], ("bad pickle",)), getattr(node, "lineno", None))
        return VOpaque(UNPICKLE(args[0].term), "value")

    def pickle_load(self, args, kw, node):
        return self.pickle_loads([VOpaque(self.content(args[0]), "bytes")], {}, node)

    # -- numpy
    def numpy_array(self, args, kw, node):
        ex = self.ex
        v = ex.unopt(args[0])
        if kw or len(args) > 1:
            raise Unsupported("np.array with a type")
        if isinstance(v, VOpaque) and v.kind == "ndarray":
            return v
        if not (isinstance(v, VOpaque) and v.kind == "ids"):
            raise Unsupported("np.array of %s" % type(v).__name__)
        self.fork()
        if not ex.branch(ARRAYABLE(v.term)):
            raise PyRaise(VExc("ValueError", ("inhomogeneous",)), getattr(node, "lineno", None))
        return VOpaque(NDOF(v.term), "ndarray")

    numpy_asarray = numpy_array

    def savez(self, args, kw, node, wrap):
        ex = self.ex
        self.fork()
        t = ex.unopt(args[0])
        if len(args) > 1 or not all(isinstance(v, VOpaque) and v.kind == "ndarray" for v in kw.values()):
            raise Unsupported("np.savez arguments")
        c = ex.fresh("npz_" + wrap, Obj)
        k, x = z3.Const("k!nz", Str), ISNPZ(c)
        ex.fact(z3.And(x, *[z3.And(NPZHAS(c, lit(n)), NPZGET(c, lit(n)) == v.term) for n, v in kw.items()]))
        ex.fact(forall(k, NPZHAS(c, k) == z3.Or(*[k == lit(n) for n in kw]), NPZHAS(c, k)))
        if isinstance(t, VCtx):
            self.write(t, [VOpaque(c, "bytes")], {}, node)
            return None
        p = self.path(t)
        ends = F("path_ends_npz", PathS, B)
        q = F("path_plus_npz", PathS, PathS)(p)
        ex.fact(z3.And(q != p, ends(q)))
        p = z3.If(ends(p), p, q)
        ex.fs_write(p, c)

    def numpy_savez(self, args, kw, node):
        return self.savez(args, kw, node, "plain")

    def numpy_savez_compressed(self, args, kw, node):
        return self.savez(args, kw, node, "compressed")

    def numpy_load(self, args, kw, node):
        ex = self.ex
        self.fork()
        p = ex.unopt(args[0])
        if isinstance(p, VCtx):
            c = self.content(p)
        else:
            p = self.path(p)
            ex.need(ex.fexists(p), "FileNotFoundError", node)
            c = S(ex.st.d["fdata"], p)
        if not ex.branch(ISNPZ(c)):
            raise PyRaise(VExc("ValueError", ("not an archive",)), getattr(node, "lineno", None))
        return VOpaque(c, "npz")

    def builtins_list(self, args, kw, node, old):
        if args and isinstance(args[0], VOpaque) and args[0].kind == "ndarray":
            return VOpaque(NDLIST(args[0].term), "ids")
        return old(args, kw, node)

    # -- json
    def json_dumps(self, args, kw, node):
        """A text that loads as the value; keys of a dictionary literal are known."""
        ex = self.ex
        self.fork()
        v = ex.unopt(args[0])
        r = ex.fresh("json", Str)
        ex.fact(JOK(r))
        if "indent" not in kw:
            ex.fact(ONELINE(r))
        s = ex.dct(v) if isinstance(v, VDict) else None
        if s is not None and s[0] == "c":
            k = z3.Const("k!js", Str)
            ex.fact(forall(k, JHAS(r, k) == z3.Or(*[k == lit(n) for n in s[1]]), JHAS(r, k)))
            for n, x in s[1].items():
                x = ex.unopt(x)
                if isnum(x) and not is_sort(x, R) and not isinstance(x, float):
                    ex.fact(JINT(r, lit(n)) == zi(x))
        else:
            raise Unsupported("json.dumps of %s" % type(v).__name__)
        return r

    def json_dump(self, args, kw, node):
        self.write(args[1], [self.json_dumps(args[:1], kw, node)], {}, node)

    def json_loads(self, args, kw, node):
        ex = self.ex
        s = ex.unopt(args[0])
        if isinstance(s, VOpaque):
            s = BTEXT(s.term)
        self.fork()
        if not ex.branch(JOK(s)):
            raise PyRaise(VExc("JSONDecodeError", ("not JSON",)), getattr(node, "lineno", None))
        o = VOpaque(F("json_value", Str, Obj)(s), "json")
        o.text = s
        return o

    def json_load(self, args, kw, node):
        return self.json_loads([BTEXT(self.content(args[0]))], {}, node)

    # -- opaque values
    def attr(self, v, name, node):
        ex = self.ex
        if v.kind == "ndarray" and name == "tolist":
            return VPy(lambda e, a, k, n: VOpaque(NDLIST(v.term), "ids"))
        if v.kind == "ndarray" and name == "shape":
            n = F("len_ndarray", Obj, I)(v.term)
            ex.fact(n >= 0)
            return (n, ex.fresh("dim", I))
        if v.kind == "npz" and name == "close":
            return VPy(lambda e, a, k, n: None)
        if v.kind == "json" and name == "get":
            return VPy(lambda e, a, k, n: self.getitem(v, a[0], n) if e.branch(JHAS(v.text, lit(a[0]))) else (a[1] if len(a) > 1 else None))
        if v.kind == "datetime":
            return VPy(lambda e, a, k, n: e.fresh("stamp", Str))
        if v.kind in ("ndarray", "ids", "bytes"):
            return VPy(lambda e, a, k, n: VOpaque(e.fresh(name, Obj), v.kind))
        raise Unsupported("attribute %s of opaque %s" % (name, v.kind))

    def getitem(self, v, ix, node):
        ex = self.ex
        if isinstance(v, VOpaque) and v.kind == "npz" and isinstance(ix, str):
            self.fork()
            ex.need(NPZHAS(v.term, lit(ix)), "KeyError", node)
            return VOpaque(NPZGET(v.term, lit(ix)), "ndarray")
        if isinstance(v, VOpaque) and v.kind == "json" and isinstance(ix, str):
            self.fork()
            ex.need(JHAS(v.text, lit(ix)), "KeyError", node)
            return JINT(v.text, lit(ix))
        if isinstance(v, VOpaque) and v.kind in ("ids", "ndarray"):
            return VOpaque(ex.fresh("part", Obj), v.kind)
        raise Unsupported("indexing %s" % type(v).__name__)

    def contains(self, c, x):
        if isinstance(c, VOpaque) and c.kind == "json" and isinstance(x, str):
            return JHAS(c.text, lit(x))
        raise Unsupported("membership")


def sel(a, p):
    """Select, read off the last store to the very same path."""
    return a.arg(2) if z3.is_store(a) and a.arg(1).eq(p) else S(a, p)


def through(fe, p):
    """Select through the stores of the array (the base select is a trigger)."""
    if z3.is_store(fe):
        a, q, b = fe.children()
        return z3.If(p == q, b, through(a, p))
    return S(fe, p)


def is_ck(d, p):
    return z3.And(ISCK(PNAME(p)), p == PJ(d, PNAME(p)))


KINDS = ("state", "index", "vectors")


def manager(ex, cls, conf):
    o, _ = build(ex, cls, conf)
    return o


def save(ex, o, kind, x, path):
    if kind == "vectors":
        return call(ex, o, "save_vectors", x[0], x[1], path)
    return call(ex, o, "save_" + kind, x, path)


def hint(ex, f):
    """A lemma that is used when it can be proved and dropped when not."""
    if ex.prove(f):
        ex.fact(f)


def hints(ex, X, files, x=None):
    fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
    for w in files.witnesses[:-1]:
        hint(ex, z3.And(S(fe, w), UNPICKLE(S(fd, w)) == X.state[0]))
    if x is not None:
        n = files.witnesses[-1]
        hint(ex, z3.And(S(fe, n), UNPICKLE(S(fd, n)) == x.term))


def payload(ex, kind):
    if kind == "vectors":
        return VOpaque(ex.fresh("vectors", Obj), "ndarray"), VOpaque(ex.fresh("ids", Obj), "ids")
    return VOpaque(ex.fresh("saved", Obj), "value")


def load(ex, o, kind, path):
    """('exc',) or the loaded value, None for the documented empty value."""
    r = call(ex, o, "load_" + kind, path)
    if r[0] == "exc":
        if not exc_is(ex, r[1], PERR):
            unexpected(ex, r, "in load_" + kind)
        return "exc"
    v = r[1]
    if isinstance(v, VOpt):
        v = narrow(ex, v)
    if kind == "vectors":
        ok = isinstance(v, tuple) and len(v) == 2
        ex.check("loading vectors answers with a pair", ok)
        if not ok:
            raise PathEnd()
        if v[0] is None and v[1] is None:
            return None
        ok = all(isinstance(y, VOpaque) for y in v)
        if not ok:
            raise Unsupported("loaded vectors")
        ex.check("ids come back as a list", v[1].kind == "ids")
        return (v[0].term, v[1].term)
    if v is None:
        return None
    if not isinstance(v, VOpaque):
        raise Unsupported("loaded value of type %s" % type(v).__name__)
    return (v.term,)


def eqv(a, b):
    """Two load outcomes are the same."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return z3.And(*[x == y for x, y in zip(a, b)])
    return a == b if not isinstance(a, tuple) and not isinstance(b, tuple) else False


def terms(x):
    return tuple(y.term for y in x) if isinstance(x, tuple) else (x.term,)


def check_saved(ex, r, what):
    if r[0] == "exc":
        if not exc_is(ex, r[1], PERR):
            unexpected(ex, r, "in " + what)
        return False
    ex.check("a successful save answers True", r[1] is True)
    return True


def conf(ex, **kw):
    return VDict(("c", dict(kw)))


# ------------------------------------------------------------------ P01
def tensor(ex, d, initialized=True):
    o = manager(ex, TEN, conf(ex, data_dir=d, compression=ex.fresh("compression", B)))
    if initialized:
        r = call(ex, o, "initialize")
        if r[0] == "exc":
            unexpected(ex, r, "in initialize")
        havoc_rest(ex, o, {"config", "data_dir", "compression", "_initialized"})
    return o


def tensor_unit(kind, other):
    @unit("TensorPersistence.save_%s/load_%s" % (kind, other), "P01")
    def run(ex):
        def thunk():
            Files(ex)
            d = ex.fresh("data_dir", Str)
            o = tensor(ex, d)
            p, q = ex.fresh("path", Str), ex.fresh("other_path", Str)
            before = load(ex, o, other, q)
            x = payload(ex, kind)
            done = check_saved(ex, save(ex, o, kind, x, p), "save_" + kind)
            again = ex.choose(3)
            if again:
                if again == 2:
                    call(ex, o, "close")
                o = tensor(ex, d)
            after = load(ex, o, other, q)
            dd = F("path_of", Str, PathS)(d)
            if not done:
                ex.check("a failed save changes nothing", eqv(before, after))
            elif ex.branch(PJ(dd, p) == PJ(dd, q)):
                if kind == other:
                    ex.check("loading returns what was saved", eqv(after, terms(x)))
            else:
                ex.check("another path is unaffected", eqv(before, after))
            reached(ex)
        ex.explore(thunk, "save_%s/load_%s" % (kind, other))
    return run


for _k in KINDS:
    for _o in KINDS:
        tensor_unit(_k, _o)


def empty_unit(cls, props, mk, kinds):
    name = cls.rsplit(".", 1)[1]

    @unit(name + ".empty", props)
    def run(ex):
        def thunk():
            Files(ex)
            d = ex.fresh("data_dir", Str)
            o = mk(ex, d)
            q = ex.fresh("path", Str)
            dd = F("path_of", Str, PathS)(d)
            ex.fact(z3.Not(ex.fexists(PJ(dd, q))))
            k = kinds[ex.choose(len(kinds))]
            ex.check("a path never saved gives the documented empty value (%s)" % k, load(ex, o, k, q) is None)
            reached(ex)
        ex.explore(thunk, "empty")

    @unit(name + ".uninitialized", props)
    def run2(ex):
        def thunk():
            Files(ex)
            d = ex.fresh("data_dir", Str)
            o = manager(ex, cls, conf(ex, data_dir=d))
            if ex.choose(2):
                call(ex, o, "initialize")
                call(ex, o, "close")
            fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
            k = KINDS[ex.choose(3)]
            p = ex.fresh("path", Str)
            r = save(ex, o, k, payload(ex, k), p) if ex.choose(2) else call(ex, o, "load_" + k, p)
            ex.check("use before initialization is refused with the persistence error", r[0] == "exc" and exc_is(ex, r[1], PERR), where(r))
            ex.check("a refused call touches no file", z3.And(ex.st.d["fexists"] == fe, ex.st.d["fdata"] == fd))
            reached(ex)
        ex.explore(thunk, "uninitialized")


empty_unit(TEN, "P01", lambda ex, d: tensor(ex, d), KINDS)


# ------------------------------------------------------------------ P02, P03
class Inc:
    """Directory and manager state: numbers of checkpoint files and log entries lie below the counter."""

    def __init__(self, ex, d):
        self.ex, self.d = ex, F("path_of", Str, PathS)(d)
        self.ds = d
        self.log, self.info = PJ(self.d, lit("operations.log")), PJ(self.d, lit("checkpoint.json"))
        self.interval = ex.fresh("checkpoint_interval", I)
        ex.fact(self.interval >= 1)

    def new(self):
        return manager(self.ex, INC, conf(self.ex, data_dir=self.ds, checkpoint_interval=self.interval))

    def data(self, p):
        return S(self.ex.st.d["fdata"], p)

    def lines(self):
        return z3.If(self.ex.fexists(self.log), self.data(self.log), EMPTY())

    def opid(self, s):
        return JINT(s, lit("operation_id"))

    def disk(self):
        """What every state of the directory satisfies (written by managers only; bookkeeping may be lost)."""
        ex = self.ex
        p = z3.Const("p!dk", PathS)
        fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
        yield "checkpoints are complete", forall(p, IMP(z3.And(S(fe, p), is_ck(self.d, p)), ISPICKLE(S(fd, p))), S(fd, p), S(fe, p))
        c = self.lines()
        i, j = z3.Int("i!dk"), z3.Int("j!dk")
        yield "the log consists of whole lines", z3.And(CLOSED(c), NLINES(c) >= 0)
        yield "every line of the log is an entry", forall(i, IMP(z3.And(0 <= i, i < NLINES(c)), z3.And(JOK(LINE(c, i)), JHAS(LINE(c, i), lit("operation_id")), self.opid(LINE(c, i)) >= 0)), LINE(c, i))
        yield "operation numbers strictly increase", forall([i, j], IMP(z3.And(0 <= i, i < j, j < NLINES(c)), self.opid(LINE(c, i)) < self.opid(LINE(c, j))), (LINE(c, i), LINE(c, j)))

    def own(self, o):
        """What an initialized manager adds."""
        ex = self.ex
        n, m = zi(o.d["_operation_count"]), zi(o.d["_last_checkpoint"])
        p, i = z3.Const("p!ow", PathS), z3.Int("i!ow")
        fe = ex.st.d["fexists"]
        c = self.lines()
        yield "the counter is not negative", z3.And(n >= 0, ex.fexists(self.log))
        yield "every checkpoint number is below the counter", forall(p, IMP(z3.And(S(fe, p), is_ck(self.d, p)), CKNUM(PNAME(p)) < n), S(fe, p))
        yield "every logged number is below the counter", forall(i, IMP(z3.And(0 <= i, i < NLINES(c)), self.opid(LINE(c, i)) < n), LINE(c, i))

    def book(self, o):
        ex = self.ex
        t = BTEXT(self.data(self.info))
        yield "the bookkeeping file holds the marker", z3.If(ex.fexists(self.info), IMP(JOK(t), z3.And(JHAS(t, lit("last_checkpoint")), JINT(t, lit("last_checkpoint")) == zi(o.d["_last_checkpoint"]))), True)

    def assume_info(self):
        """A bookkeeping file that can be read was written by a manager."""
        t = BTEXT(self.data(self.info))
        self.ex.fact(IMP(JOK(t), z3.And(JHAS(t, lit("last_checkpoint")), JHAS(t, lit("operation_count")), JINT(t, lit("operation_count")) >= 0)))

    def arbitrary(self, files):
        ex = self.ex
        o = self.new()
        for f in ("_operation_count", "_last_checkpoint", "_initialized"):
            if f not in o.d:
                raise Unsupported("representation of IncrementalPersistence")
        o.d["_operation_count"], o.d["_last_checkpoint"] = ex.fresh("operation_count", I), ex.fresh("last_checkpoint", I)
        o.d["_initialized"] = True
        havoc_rest(ex, o, {"config", "data_dir", "checkpoint_interval", "log_file", "checkpoint_file", "_operation_count", "_last_checkpoint", "_initialized"})
        for nm, f in list(self.disk()) + list(self.own(o)):
            ex.fact(f)
        p = z3.Const("p!nw", PathS)
        fe = ex.st.d["fexists"]
        ck = lambda x: z3.And(S(fe, x), is_ck(self.d, x))
        if ex.choose(2):
            ex.fact(forall(p, z3.Not(ck(p)), S(fe, p)))
            self.state = None
        else:
            w = ex.fresh("newest", PathS)
            ex.fact(z3.And(ck(w), forall(p, IMP(ck(p), CKNUM(PNAME(p)) <= CKNUM(PNAME(w))), S(fe, p))))
            files.witnesses.append(w)
            self.state = (UNPICKLE(self.data(w)),)
        files.witnesses.append(PJ(self.d, ckname(o.d["_operation_count"])))
        return o

    def check_all(self, o, disk=True):
        for nm, f in list(self.disk()) + list(self.own(o)):
            self.ex.check(nm, f)

    def pool(self, L):
        """Counters never fall below what they were, nor below a number already seen."""
        ex = self.ex
        if L.i is None:
            return
        j = z3.Int("j!pp")
        for cell in L.info.mods:
            v = L.cur(cell)
            if not (is_sort(v, I) or isinstance(v, int)):
                continue
            nm = str(cell[1])
            w = L.pre.get(cell)
            if w is not None and isnum(ex.prevalue(L.pre, w) if False else w):
                yield nm + ":pre", zi(v) >= zi(w)
            if L.it.kind == "glob":
                yield nm + ":above", forall(j, IMP(z3.And(0 <= j, j < L.i), CKNUM(PNAME(L.it.at(j))) < zi(v)), L.it.at(j))
                yield nm + ":max", forall(j, IMP(z3.And(0 <= j, j < L.i), CKNUM(PNAME(L.it.at(j))) <= zi(v)), L.it.at(j))
            if L.it.kind == "lines":
                yield nm + ":above", forall(j, IMP(z3.And(0 <= j, j < L.i), self.opid(L.it.at(j)) < zi(v)), L.it.at(j))
                yield nm + ":max", forall(j, IMP(z3.And(0 <= j, j < L.i), self.opid(L.it.at(j)) <= zi(v)), L.it.at(j))


def foreign(I_, p):
    """The path is not one of the manager's own files."""
    q = PJ(I_.d, p)
    return z3.And(q != I_.log, q != I_.info, z3.Not(is_ck(I_.d, q)))


@unit("IncrementalPersistence.initialize", "P02 P03")
def inc_init(ex):
    def thunk():
        fl = Files(ex)
        ex.lib_datetime_datetime_now = lambda a, kw, node: VOpaque(ex.fresh("now", Obj), "datetime")
        X = Inc(ex, ex.fresh("data_dir", Str))
        for nm, f in X.disk():
            ex.fact(f)
        X.assume_info()
        fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
        t = BTEXT(X.data(X.info))
        ex.loop_pools = [X.pool]
        o = X.new()
        r = call(ex, o, "initialize")
        if r[0] == "exc":
            unexpected(ex, r, "in initialize")
        X.check_all(o)
        ok = z3.And(S(fe, X.info), JOK(t))
        ex.check("the marker is the one of the bookkeeping file", IMP(ok, zi(o.d["_last_checkpoint"]) == JINT(t, lit("last_checkpoint"))))
        p = z3.Const("p!in", PathS)
        ex.check("initialization changes no file", forall(p, IMP(p != X.log, z3.And(S(ex.st.d["fexists"], p) == S(fe, p), IMP(S(fe, p), S(ex.st.d["fdata"], p) == S(fd, p)))), S(ex.st.d["fexists"], p), S(ex.st.d["fdata"], p)))
        ex.check("initialization keeps the log", IMP(S(fe, X.log), S(ex.st.d["fdata"], X.log) == S(fd, X.log)))
        reached(ex)
    ex.explore(thunk, "initialize")


def inc_unit(kind, other):
    @unit("IncrementalPersistence.save_%s/load_%s" % (kind, other), "P02 P03" if kind == other else "P02")
    def run(ex):
        def thunk():
            fl = Files(ex)
            ex.lib_datetime_datetime_now = lambda a, kw, node: VOpaque(ex.fresh("now", Obj), "datetime")
            X = Inc(ex, ex.fresh("data_dir", Str))
            o = X.arbitrary(fl)
            for nm, f in X.book(o):
                ex.fact(f)
            n0, m0 = zi(o.d["_operation_count"]), zi(o.d["_last_checkpoint"])
            p, q = ex.fresh("path", Str), ex.fresh("other_path", Str)
            if kind != "state":
                ex.fact(foreign(X, p))
            if other != "state":
                ex.fact(foreign(X, q))
            c0 = X.lines()
            before = load(ex, o, other, q) if other != "state" else X.state
            x = payload(ex, kind)
            done = check_saved(ex, save(ex, o, kind, x, p), "save_" + kind)
            if other == "state":
                hints(ex, X, fl, x if done and kind == "state" else None)
            after = load(ex, o, other, q)
            if not done:
                ex.check("a failed save leaves what was saved", eqv(before, after))
            elif kind == "state":
                ex.check("loading the state returns the one just saved" if other == "state" else "files are unaffected by a state save", eqv(after, terms(x)) if other == "state" else eqv(before, after))
            elif other == "state":
                ex.check("the state is unaffected by other saves", eqv(before, after))
            elif ex.branch(PJ(X.d, p) == PJ(X.d, q)):
                if kind == other:
                    ex.check("loading returns what was saved", eqv(after, terms(x)))
            else:
                ex.check("another path is unaffected", eqv(before, after))
            if kind == other:
                X.check_all(o)
                n1, m1 = zi(o.d["_operation_count"]), zi(o.d["_last_checkpoint"])
                c1 = X.lines()
                i = z3.Int("i!lg")
                if done:
                    k = NLINES(c0)
                    ex.check("a save appends exactly one log line", NLINES(c1) == k + 1)
                    ex.check("the appended line is an entry with the current number", z3.And(JOK(LINE(c1, k)), JHAS(LINE(c1, k), lit("operation_id")), X.opid(LINE(c1, k)) == n0))
                    ex.check("earlier log lines stay", forall(i, IMP(z3.And(0 <= i, i < k), LINE(c1, i) == LINE(c0, i)), LINE(c1, i)))
                    ex.check("the counter advances by one", n1 == n0 + 1)
                    base = n0 if kind == "state" else m0
                    ex.check("the marker moves exactly by the rule", m1 == z3.If(n1 - base >= X.interval, n1, base))
                    for nm, f in X.book(o):
                        ex.check(nm, f)
                else:
                    ex.check("a failed save keeps counter, marker and log", z3.And(n1 == n0, m1 == m0, c1 == c0))
            reached(ex)
        ex.explore(thunk, "save_%s/load_%s" % (kind, other))
    return run


for _k in KINDS:
    for _o in KINDS:
        inc_unit(_k, _o)


def restart_unit(kind):
    @unit("IncrementalPersistence.restart_" + kind, "P02")
    def run(ex):
        """Closing and opening a manager on the directory, even after losing the bookkeeping file, changes no answer."""
        def thunk():
            fl = Files(ex)
            X = Inc(ex, ex.fresh("data_dir", Str))
            o = X.arbitrary(fl)
            X.assume_info()
            q = ex.fresh("path", Str)
            if kind != "state":
                ex.fact(foreign(X, q))
            before = load(ex, o, kind, q) if kind != "state" else X.state
            damage = ex.choose(3)
            if damage == 0:
                r = call(ex, o, "close")
                if r[0] == "exc":
                    unexpected(ex, r, "in close")
            if damage == 1:
                ex.set(ex.st, "fexists", z3.Store(ex.st.d["fexists"], X.info, z3.BoolVal(False)))
            if damage == 2:
                bad = ex.fresh("garbage", Obj)
                ex.fact(z3.Not(JOK(BTEXT(bad))))
                ex.fs_write(X.info, bad)
            ex.loop_pools = [X.pool]
            o2 = X.new()
            r = call(ex, o2, "initialize")
            if r[0] == "exc":
                unexpected(ex, r, "in initialize")
            hints(ex, X, fl)
            ex.check("a restart changes no answer", eqv(before, load(ex, o2, kind, q)))
            reached(ex)
        ex.explore(thunk, "restart_" + kind)


for _k in KINDS:
    restart_unit(_k)


def _inc(ex, d):
    X = Inc(ex, d)
    o = X.new()
    for nm, f in X.disk():
        ex.fact(f)
    X.assume_info()
    ex.loop_pools = [X.pool]
    r = call(ex, o, "initialize")
    if r[0] == "exc":
        unexpected(ex, r, "in initialize")
    return o


empty_unit(INC, "P02", _inc, ("index", "vectors"))


@unit("IncrementalPersistence.load_state", "P02")
def inc_load(ex):
    def thunk():
        fl = Files(ex)
        X = Inc(ex, ex.fresh("data_dir", Str))
        o = X.arbitrary(fl)
        fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
        ex.check("the state is the newest checkpoint's, none without checkpoint", eqv(X.state, load(ex, o, "state", ex.fresh("path", Str))))
        ex.check("loading touches no file", z3.And(ex.st.d["fexists"] == fe, ex.st.d["fdata"] == fd))
        for nm, f in X.own(o):
            ex.check(nm, f)
        reached(ex)
    ex.explore(thunk, "load_state")
