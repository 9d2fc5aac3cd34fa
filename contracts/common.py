"""Shared vocabulary of the contracts: arguments, outcomes, the abstract storage contract."""
from pyvc.arrays import *
from pyvc.verify import unit

NOEXC = "no unexpected exception"


def setup(ex, fs=False, arrays=True):
    ex.init_heap()
    if arrays:
        ex.init_arrays()
    if fs:
        ex.init_fs()
    r = z3.Int("r!h")
    ex.raw_fact(forall(r, z3.Select(ex.st.d["Hmeta"], r) != NOMETA, z3.Select(ex.st.d["Hmeta"], r)))


def outcome(ex, thunk):
    """('ret', value) or ('exc', exception, line)."""
    n, m = len(ex.frames), len(ex.excstack)
    try:
        return ("ret", thunk())
    except PyRaise as e:
        del ex.frames[n:]
        del ex.excstack[m:]
        return ("exc", e.exc, e.line)


def call(ex, obj, name, *args, **kw):
    return outcome(ex, lambda: ex.call(ex.getattr(obj, name), list(args), kw))


def exc_is(ex, exc, dotted):
    """Is the raised exception (surely) an instance of the repository class?"""
    c = ex.repo.cls(dotted)
    return isinstance(exc.cls, ClassInfo) and exc.cls.is_sub(c)


def where(o):
    return "line %s" % o[2] if o[0] == "exc" else ""


def unexpected(ex, o, what=""):
    """An exception the specification does not allow here."""
    c = o[1].cls
    ex.check("%s%s (%s, line %s)" % (NOEXC, " " + what if what else "", c.name if isinstance(c, ClassInfo) else c, o[2]), False, where(o))
    raise PathEnd()


def reached(ex):
    """Vacuity guard: the end of a path with consistent assumptions."""
    if ex.mode == "main" and not ex.reached:
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("rlimit", 2000000)
        s.add(*ex.facts)
        s.add(*ex.axioms())
        if s.check() != z3.unsat:
            ex.reached = 1


# ------------------------------------------------------------------ arguments
def arg_vec(ex, name="vector", d=None):
    """A one-dimensional array owned by the caller."""
    r = ex.fresh(name, I)
    ex.fact(z3.And(r >= 0, r < ex.st.d["alloc"], client(r)))
    v = ex.arr_from_ref(r)
    if d is not None:
        ex.fact(v.d["s"][0][0] == zi(d))
    return v


def arg_meta(ex, name="metadata", opt=True):
    r = ex.fresh(name, I)
    ex.fact(z3.And(r >= 0, r < ex.st.d["alloc"], client(r)))
    m = VMeta(r)
    return VOpt(ex.fresh(name + "_none", B), m) if opt else m


def content_vec(ex, v):
    return ex.arr_box(v)


def content_meta(ex, m):
    """Content term of an optional dictionary (NOMETA for None)."""
    if m is None:
        return NOMETA
    if isinstance(m, VOpt):
        return ITE(m.isnone, NOMETA, content_meta(ex, m.value))
    if isinstance(m, VMeta):
        return ex.meta_val(m)
    if isinstance(m, VOpaque) and m.kind == "filedata":
        return F("meta_of_file", Obj, MetaV)(m.term)
    if isinstance(m, VDict):
        return ex.meta_val(ex.meta_of_dict(m))
    raise Unsupported("metadata of type %s" % type(m).__name__)


def narrow(ex, v):
    """Case split on an optional value."""
    if isinstance(v, VOpt):
        return None if ex.branch(v.isnone) else narrow(ex, v.value)
    return v


def ref_of_meta(m):
    """Heap reference of a metadata value (None when it is a fresh object)."""
    if isinstance(m, VOpt):
        return ref_of_meta(m.value)
    return m.ref if isinstance(m, VMeta) else None


def nonneg_opt_int(ex, name):
    v = ex.fresh(name, I)
    ex.fact(v >= 0)
    return VOpt(ex.fresh(name + "_none", B), v)


def build(ex, dotted, conf=None):
    """Construct an object through its real __init__ with an arbitrary configuration."""
    ci = ex.repo.cls(dotted)
    c = conf if conf is not None else VConf(types={"data_dir": TStr})
    o = VObj(ci)
    k, m = ci.find("__init__")
    skip = ex.skip_contract
    ex.skip_contract = skip | {ci.qual + ".__init__"}
    try:
        ex.call_func(VFunc(m, k.mod, None, k, o), [c], {})
    finally:
        ex.skip_contract = skip
    return o, c


# ------------------------------------------------------------------ abstract storage
class Store:
    """Ghost state of a storage backend: live ids, vector and metadata contents."""

    def __init__(self, dom, vec, meta):
        self.dom, self.vec, self.meta = dom, vec, meta

    def has(self, k):
        return z3.Select(self.dom, k)

    def v(self, k):
        return z3.Select(self.vec, k)

    def m(self, k):
        return z3.Select(self.meta, k)


def fresh_store(ex, name="S"):
    s = Store(ex.fresh(name + "_dom", z3.ArraySort(Str, B)), ex.fresh(name + "_vec", z3.ArraySort(Str, Arr)),
              ex.fresh(name + "_meta", z3.ArraySort(Str, MetaV)))
    ex.dom_facts(s.dom)
    ex.fact(z3.Not(s.has(lit(""))))
    return s


def abs_store(ex, cls="Storage", name="S", init=None):
    """Abstract storage object usable as a component."""
    o = VObj(cls)
    s = fresh_store(ex, name)
    o.d.update({"$dom": s.dom, "$vec": s.vec, "$meta": s.meta, "$init": init if init is not None else ex.fresh(name + "_init", B)})
    return o


def store_of(o):
    return Store(o.d["$dom"], o.d["$vec"], o.d["$meta"])


def s_err(ex, obj):
    """not initialized -> StorageError"""
    if not ex.branch(obj.d["$init"]):
        raise PyRaise(VExc(ex.repo.cls("valori.exceptions.StorageError"), ("not initialized",)))


def _arg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


def st_store(ex, obj, args, kw, node=None):
    k, v, m = _arg(args, kw, 0, "id"), _arg(args, kw, 1, "vector"), _arg(args, kw, 2, "metadata")
    k = ex.S(ex.unopt(k))
    if not ex.branch(slen(k) > 0):
        return False
    s_err(ex, obj)
    s_put(ex, obj, k, v, m)
    return True


def s_put(ex, obj, k, v, m):
    s = store_of(obj)
    vec = content_vec(ex, ex.unopt(v))
    ex.set(obj, "$meta", z3.Store(s.meta, k, content_meta(ex, m)))
    ex.set(obj, "$vec", z3.Store(s.vec, k, vec))
    ex.set(obj, "$dom", ex.dom_store(s.dom, k, True))


def st_update(ex, obj, args, kw, node=None):
    k, v, m = _arg(args, kw, 0, "id"), _arg(args, kw, 1, "vector"), _arg(args, kw, 2, "metadata")
    k = ex.S(ex.unopt(k))
    s_err(ex, obj)
    if not ex.branch(store_of(obj).has(k)):
        return False
    s_put(ex, obj, k, v, m)
    return True


def st_delete(ex, obj, args, kw, node=None):
    k = ex.S(ex.unopt(_arg(args, kw, 0, "id")))
    s_err(ex, obj)
    s = store_of(obj)
    if not ex.branch(s.has(k)):
        return False
    ex.set(obj, "$dom", ex.dom_store(s.dom, k, False))
    return True


def st_retrieve(ex, obj, args, kw, node=None):
    k = ex.S(ex.unopt(_arg(args, kw, 0, "id")))
    s_err(ex, obj)
    s = store_of(obj)
    a = ex.arr_from_box(s.v(k), 1, "f")
    m = s.m(k)
    if ex.pure:
        raise NeedFork()
    mm = ex.new_meta(m)
    return VOpt(NOT(s.has(k)), (a, VOpt(m == NOMETA, mm)))


def st_list(ex, obj, args, kw, node=None):
    limit = _arg(args, kw, 0, "limit")
    s_err(ex, obj)
    s = store_of(obj)
    n, e = ex.enum(s.dom)
    l = VList(("s", n, ex.sel(e), TStr, e))
    if limit is None:
        return l
    hi = ex.clamp(limit, n, n)
    return ex.list_slice(l, 0, hi)


def st_stats(ex, obj, args, kw, node=None):
    init = obj.d["$init"]
    if not ex.branch(init):
        return VDict(("c", {"status": "not_initialized"}))
    return VDict(("c", {"vector_count": ex.card(store_of(obj).dom), "backend_type": "storage", "initialized": True}))


def st_init_mem(ex, obj, args, kw, node=None):
    ex.set(obj, "$dom", ex.empty_dom(Str))
    ex.set(obj, "$init", True)


def st_init_disk(ex, obj, args, kw, node=None):
    ex.set(obj, "$init", True)


def st_close_mem(ex, obj, args, kw, node=None):
    ex.set(obj, "$dom", ex.empty_dom(Str))
    ex.set(obj, "$init", False)


def st_close_disk(ex, obj, args, kw, node=None):
    ex.set(obj, "$init", False)


STORE_OPS = {"store_vector": st_store, "update_vector": st_update, "delete_vector": st_delete, "retrieve_vector": st_retrieve,
             "list_vectors": st_list, "get_stats": st_stats}


def storage_iface(ex, obj, name, node):
    """Attribute access on the abstract storage of an index."""
    h = STORE_OPS.get(name)
    if h is not None:
        return VPy(lambda e, a, kw, n, h=h: h(e, obj, a, kw, n), name)
    if name == "_initialized":
        return obj.d["$init"]
    raise Unsupported("storage attribute " + name)


def use_storage_contracts(ex):
    """Components of class MemoryStorage / DiskStorage are known by their contracts only."""
    for cls, init, close in (("memory.MemoryStorage", st_init_mem, st_close_mem), ("disk.DiskStorage", st_init_disk, st_close_disk)):
        q = "valori.storage." + cls
        for n, h in list(STORE_OPS.items()) + [("initialize", init), ("close", close)]:
            ex.contracts[q + "." + n] = h

        def new(e, ci, args, kw, node, q=q):
            o = VObj(ci)
            s = fresh_store(e, "disk" if "disk" in q else "mem")
            o.d.update({"$dom": s.dom, "$vec": s.vec, "$meta": s.meta, "$init": False, "$conf": args[0] if args else None})
            return o
        ex.contracts[q] = new
