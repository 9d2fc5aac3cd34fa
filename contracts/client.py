"""VectorDBClient (V01)."""
from .comp import *

CLI = "valori.client.VectorDBClient"
VERR = "valori.exceptions.ValoriError"
OPS = {"insert": ("vectors", "metadata"), "search": ("query_vector", "k"), "delete": ("ids",), "update": ("id", "vector", "metadata")}


def client_setup(ex, havoc=True):
    comp_setup(ex)
    ci = ex.repo.cls(CLI)
    c = {n: comp(ex, n) for n in ("storage_backend", "index", "quantizer", "persistence_manager")}
    q, p = ex.choose(2), ex.choose(2)
    if not q:
        c["quantizer"] = None
    if not p:
        c["persistence_manager"] = None
    o = VObj(ci)
    k, m = ci.find("__init__")
    ex.call_func(VFunc(m, k.mod, None, k, o), [c["storage_backend"], c["index"], c["quantizer"], c["persistence_manager"]], {})
    for n, v in c.items():
        if o.d.get(n) is not v:
            raise Unsupported("representation of the client")
    if calls(ex):
        raise Unsupported("the constructor uses a component")
    new = zb(ex.truth(o.d["_initialized"]))
    if havoc:
        o.d["_initialized"] = ex.fresh("initialized", B)
        from .storage import havoc_rest
        havoc_rest(ex, o, {"_initialized", "config"} | set(c))
    return o, c, new


def arg_of(ex, n):
    if n in ("vectors",):
        r = ex.fresh(n, I)
        ex.fact(z3.And(r >= 0, r < ex.st.d["alloc"], client(r)))
        v = ex.arr_from_box(ex.vec_at(r), 2)
        v.ref = r
        return v
    if n in ("query_vector", "vector"):
        return arg_vec(ex, n)
    if n == "ids":
        return ex.havoc_value(TList(TStr), n)
    if n == "k":
        return ex.fresh(n, I)
    if n == "id":
        return ex.fresh(n, Str)


def op_unit(op):
    @unit("VectorDBClient." + op, "V01")
    def run(ex):
        def thunk():
            o, c, _ = client_setup(ex)
            names = OPS[op]
            given = {n: arg_of(ex, n) for n in names if n != "metadata"}
            if "metadata" in names:
                if op == "update":
                    given["metadata"] = arg_meta(ex)
                else:
                    l = ex.havoc_value(TList(TOpt(TMeta)), "metadata")
                    given["metadata"] = VOpt(ex.fresh("metadata_none", B), l)
            init0 = zb(ex.truth(o.d["_initialized"]))
            r = call(ex, o, op, *[given[n] for n in names])
            log = calls(ex)
            ex.check("%s does not change whether the client is initialized" % op, zb(ex.truth(o.d["_initialized"])) == init0)
            if not ex.branch(init0):
                ex.check("an uninitialized client refuses %s with the library's error" % op, r[0] == "exc" and exc_is(ex, r[1], VERR), where(r))
                ex.check("a refused %s reaches no component" % op, not log)
                reached(ex)
                return
            ex.check("%s reaches the index exactly once and nothing else" % op, len(log) == 1 and log[0][0] == "index", str([x[:2] for x in log]))
            if len(log) != 1:
                return
            ex.check("%s passes its arguments unchanged" % op, passed(ex, log[0], op, names, given))
            if log[0][4] is None:
                ex.check("a failure of the index is reported", r[0] == "exc")
            else:
                if r[0] == "exc":
                    unexpected(ex, r)
                ex.check("%s returns the answer of the index" % op, r[1] is log[0][4] or zb(same_arg(ex, r[1], log[0][4])))
            reached(ex)
        ex.explore(thunk, op)
    return run


for _n in OPS:
    op_unit(_n)


@unit("VectorDBClient.get_stats", "V01")
def stats_unit(ex):
    def thunk():
        o, c, _ = client_setup(ex)
        init0 = zb(ex.truth(o.d["_initialized"]))
        r = call(ex, o, "get_stats")
        log = calls(ex)
        if not ex.branch(init0):
            ex.check("an uninitialized client refuses get_stats with the library's error", r[0] == "exc" and exc_is(ex, r[1], VERR), where(r))
            ex.check("a refused get_stats reaches no component", not log)
            reached(ex)
            return
        ex.check("get_stats only asks for statistics", all(x[1] == "get_stats" and not x[2] and not x[3] for x in log))
        if r[0] == "exc":
            ex.check("get_stats fails only when a component fails", any(x[4] is None for x in log), where(r))
            reached(ex)
            return
        ex.check("statistics name every component with its own answer", isinstance(r[1], VDict) and all(
            any(x[0] == n and same_arg(ex, ex.unopt(ex.dict_get(r[1], key)), x[4]) is True or False for x in log)
            for n, key in (("storage_backend", "storage"), ("index", "index"))))
        reached(ex)
    ex.explore(thunk, "get_stats")


@unit("VectorDBClient.initialize", "V01")
def initialize_unit(ex):
    def thunk():
        o, c, _ = client_setup(ex)
        init0 = zb(ex.truth(o.d["_initialized"]))
        r = call(ex, o, "initialize")
        log = calls(ex)
        names = [x[0] for x in log]
        ex.check("initialize only initializes components, each at most once", all(x[1] == "initialize" for x in log) and len(set(names)) == len(names), str(names))
        ex.check("storage is initialized before the index", "index" not in names or "storage_backend" in names[:names.index("index")])
        ex.check("the index gets the client's storage", all(zb(passed(ex, x, "initialize", ("storage",), {"storage": c["storage_backend"]})) is not None and
                                                          x[2] and x[2][0] is c["storage_backend"] or any(v is c["storage_backend"] for _, v in x[3]) for x in log if x[0] == "index"))
        if r[0] == "exc":
            ex.check("a failed initialization is reported with the library's error", exc_is(ex, r[1], VERR), where(r))
            ex.check("initialization fails only when a component fails", bool(log) and log[-1][4] is None, where(r))
            ex.check("a failed initialization does not make the client usable", zb(ex.truth(o.d["_initialized"])) == init0)
        else:
            ex.check("the failure of a component is reported", all(x[4] is not None for x in log))
            ex.check("every component is initialized", set(names) == {n for n, v in c.items() if v is not None}, str(names))
            ex.check("the client is initialized afterwards", zb(ex.truth(o.d["_initialized"])))
        reached(ex)
    ex.explore(thunk, "initialize")


@unit("VectorDBClient.close", "V01")
def close_unit(ex):
    def thunk():
        o, c, _ = client_setup(ex)
        r = call(ex, o, "close")
        log = calls(ex)
        names = [x[0] for x in log]
        ex.check("close only closes components, each at most once", all(x[1] == "close" for x in log) and len(set(names)) == len(names), str(names))
        if r[0] == "exc":
            ex.check("close fails only when a component fails", any(x[4] is None for x in log), where(r))
        else:
            ex.check("every component is closed", set(names) == {n for n, v in c.items() if v is not None}, str(names))
            ex.check("the client is not initialized afterwards", NOT(zb(ex.truth(o.d["_initialized"]))))
        reached(ex)
    ex.explore(thunk, "close")


@unit("VectorDBClient.__init__", "V01")
def new_unit(ex):
    def thunk():
        o, c, new = client_setup(ex, havoc=False)
        ex.check("a new client is not initialized", NOT(new))
        reached(ex)
    ex.explore(thunk, "__init__")
