"""Factory and recommendations (F01)."""
from .common import *
from pyvc.repo import VFunc

FAC, HLP, CFG = "valori.factory.", "valori.utils.helpers.", "valori.configs."
KINDS = {"flat": "valori.indices.flat.FlatIndex", "hnsw": "valori.indices.hnsw.HNSWIndex", "ivf": "valori.indices.ivf.IVFIndex",
         "lsh": "valori.indices.lsh.LSHIndex", "annoy": "valori.indices.annoy.AnnoyIndex"}
STORES = {"memory": "valori.storage.memory.MemoryStorage", "disk": "valori.storage.disk.DiskStorage", "hybrid": "valori.storage.hybrid.HybridStorage"}
CLI = "valori.client.VectorDBClient"


def fn(ex, name):
    f = ex.repo.dotted(name)
    if not isinstance(f, VFunc):
        raise Unsupported("function %s not found" % name)
    return f


def fac_setup(ex):
    setup(ex)
    ex.built = []

    def new(e, ci, args, kw, node):
        o = VObj("part")
        e.set(e.blog, "l", e.blog.d["l"] + ((ci.qual, tuple(args), tuple(sorted(kw.items())), o),))
        return o
    ex.blog = VObj("$log", {"l": ()})
    for q in list(KINDS.values()) + list(STORES.values()) + [CLI]:
        ex.repo.cls(q)
        ex.contracts[q] = new

    def part(e, o, name, node):
        def run(e2, args, kw, n):
            e2.set(e2.blog, "l", e2.blog.d["l"] + ((name, tuple(args), tuple(sorted(kw.items())), o),))
            return None
        return VPy(run, name)
    ex.ifaces["part"] = part


def log(ex, q=None):
    l = ex.blog.d["l"]
    return [x for x in l if x[0] == q] if q else l


def one_arg(x, name="config"):
    a = list(x[1]) + [v for k, v in x[2] if k == name]
    return a[0] if len(a) == 1 else None


def a_conf(ex, key):
    return VDict(("c", {"marker": VOpaque(ex.fresh(key, Obj), "conf"), "metric": ex.fresh(key + "_metric", Str)}))


def same_conf(ex, a, b):
    if a is b:
        return True
    if isinstance(a, VDict) and isinstance(b, VDict):
        sa, sb = ex.dct(a), ex.dct(b)
        if sa[0] == "c" and sb[0] == "c" and set(sa[1]) == set(sb[1]):
            return AND(*[same_conf(ex, sa[1][k], sb[1][k]) if isinstance(sa[1][k], VDict) else ex.eq(sa[1][k], sb[1][k]) for k in sa[1]])
    return False


def is_empty(ex, d):
    return isinstance(d, VDict) and ex.dct(d) == ("c", {})


def check_db(ex, r, it, st, ic, sc):
    """r: a client made of exactly one index of kind it and one storage of kind st with the given configurations."""
    ki, ks = z3.Or(*[it == lit(n) for n in KINDS]), z3.Or(*[st == lit(n) for n in STORES])
    if r[0] == "exc":
        if r[1].cls != "ValueError" and not (isinstance(r[1].cls, ClassInfo) and r[1].cls.is_sub(ex.repo.cls("valori.exceptions.ValoriError"))):
            unexpected(ex, r)
        ex.check("documented names are accepted", z3.Not(z3.And(ki, ks)), where(r))
        reached(ex)
        return
    ex.check("unknown names are rejected", z3.And(ki, ks))
    ix = [x for x in log(ex) if x[0] in KINDS.values()]
    ss = [x for x in log(ex) if x[0] in STORES.values()]
    cl = log(ex, CLI)
    ex.check("one index, one storage, one client", len(ix) == 1 and len(ss) == 1 and len(cl) == 1)
    if len(ix) != 1 or len(ss) != 1 or len(cl) != 1:
        return
    for n, q in KINDS.items():
        ex.check("the index is of the named kind", IMP(it == lit(n), ix[0][0] == q))
    for n, q in STORES.items():
        ex.check("the storage is of the named kind", IMP(st == lit(n), ss[0][0] == q))
    gi, gs = one_arg(ix[0]), one_arg(ss[0])
    ex.check("the index gets exactly its configuration", zb(same_conf(ex, gi, ic)) if ic is not None else is_empty(ex, gi))
    ex.check("the storage gets exactly its configuration", zb(same_conf(ex, gs, sc)) if sc is not None else is_empty(ex, gs))
    d = dict(zip(("storage_backend", "index"), cl[0][1]))
    d.update(dict(cl[0][2]))
    ex.check("the client is made of these two", d.get("storage_backend") is ss[0][3] and d.get("index") is ix[0][3] and not (set(d) - {"storage_backend", "index"}))
    ex.check("the client is initialized and returned", r[1] is cl[0][3] and len([x for x in log(ex, "initialize") if x[3] is cl[0][3]]) == 1)
    ex.check("nothing else is done", len(log(ex)) == 4)
    reached(ex)


def sizes(ex):
    o = lambda n: VOpt(ex.fresh(n + "_none", B), ex.fresh(n, I))
    return o("num_vectors"), o("dimension"), ex.fresh("use_case", Str)


@unit("factory.create_vector_db", "F01")
def create_unit(ex):
    def thunk():
        fac_setup(ex)
        it, st = ex.fresh("index_type", Str), ex.fresh("storage_type", Str)
        ex.fact(slen(it) > 0)
        kw = {"index_type": it}
        ic = sc = None
        if ex.choose(2):
            kw["storage_type"] = st
        else:
            st = lit("memory")
        if ex.choose(2):
            ic = kw["index_config"] = a_conf(ex, "index_conf")
        if ex.choose(2):
            sc = kw["storage_config"] = a_conf(ex, "storage_conf")
        if ex.choose(2):
            kw["num_vectors"], kw["dimension"], kw["use_case"] = sizes(ex)
        r = outcome(ex, lambda: ex.call(fn(ex, FAC + "create_vector_db"), [], kw))
        check_db(ex, r, it, st, ic, sc)
    ex.explore(thunk, "create_vector_db")


def fits(ex, kind, conf):
    """The configuration can be used by that kind: the constructor accepts it and the settings are within the kind's contract."""
    q = KINDS[kind]
    saved = ex.contracts.pop(q, None)
    try:
        ci = ex.repo.cls(q)
        r = outcome(ex, lambda: ex.instantiate(ci, [conf], {}))
    finally:
        if saved:
            ex.contracts[q] = saved
    if r[0] == "exc":
        ex.check("the constructor of %s accepts the recommended settings" % kind, False, where(r))
        return
    s = ex.dct(conf)
    if s[0] != "c":
        raise Unsupported("symbolic recommendation")
    c = s[1]
    metric = {"flat": ("cosine", "euclidean"), "hnsw": ("cosine", "euclidean"), "ivf": ("cosine", "euclidean"), "lsh": ("cosine", "euclidean", "manhattan"),
              "annoy": ("angular", "euclidean", "manhattan", "hamming", "dot")}[kind]
    if "metric" in c:
        ex.check("the recommended metric exists for %s" % kind, c["metric"] in metric if isinstance(c["metric"], str) else z3.Or(*[c["metric"] == lit(m) for m in metric]))
    for k in ("n_clusters", "n_probes", "M", "ef_construction", "ef_search", "num_trees", "num_hash_tables", "hash_size", "num_projections"):
        if k in c:
            ex.check("the recommended %s is positive" % k, z3.And(zi(c[k]) >= 1))
    if "hash_size" in c and "num_projections" in c:
        ex.check("no more hash bits than projections", zi(c["hash_size"]) <= zi(c["num_projections"]))
    reached(ex)


def rec_parts(ex, r, what):
    if r[0] == "exc":
        unexpected(ex, r, "in " + what)
    d = r[1]
    if not isinstance(d, VDict) or ex.dct(d)[0] != "c" or "type" not in ex.dct(d)[1] or not isinstance(ex.dct(d)[1].get("config"), VDict):
        ex.check("%s gives a kind and its configuration" % what, False)
        raise PathEnd()
    t = ex.dct(d)[1]["type"]
    ex.check("%s names a kind the factory accepts" % what, t in KINDS if isinstance(t, str) else z3.Or(*[ex.S(t) == lit(n) for n in KINDS]))
    if not isinstance(t, str):
        for n in KINDS:
            if ex.branch(ex.S(t) == lit(n)):
                t = n
                break
        else:
            raise PathEnd()
    if t not in KINDS:
        raise PathEnd()
    return t, ex.dct(d)[1]["config"]


@unit("helpers.get_recommended_index_config", "F01")
def recommend_unit(ex):
    def thunk():
        setup(ex)
        n, d, u = sizes(ex)
        r = outcome(ex, lambda: ex.call(fn(ex, HLP + "get_recommended_index_config"), [n, d, u], {}))
        t, c = rec_parts(ex, r, "the recommendation")
        r2 = outcome(ex, lambda: ex.call(fn(ex, HLP + "get_recommended_index_config"), [n, d, u], {}))
        ex.check("every recommendation is the caller's own", r2[0] == "exc" or r2[1] is not r[1] and ex.dct(r2[1])[1].get("config") is not c)
        fits(ex, t, c)
    ex.explore(thunk, "recommend")


@unit("factory.create_vector_db recommended", "F01")
def create_rec_unit(ex):
    def thunk():
        fac_setup(ex)
        n, d, u = sizes(ex)
        st = ex.fresh("storage_type", Str)
        types = {}

        def rec(e, fnv, args, kw, node=None):
            t = e.fresh("rec_type", Str)
            e.fact(z3.Or(*[t == lit(k) for k in KINDS]))
            types["t"], types["c"] = t, a_conf(e, "rec_conf")
            types["n"] = types.get("n", 0) + 1
            types["args"] = dict(zip(("num_vectors", "dimension", "use_case"), args), **kw)
            return VDict(("c", {"type": t, "config": types["c"]}))
        ex.contracts[HLP + "get_recommended_index_config"] = rec
        r = outcome(ex, lambda: ex.call(fn(ex, FAC + "create_vector_db"), [], {"num_vectors": n, "dimension": d, "use_case": u, "storage_type": st}))
        if "t" not in types:
            raise Unsupported("the recommendation is not asked")
        a = types["args"]
        ex.check("the recommendation is asked for these data", AND(types["n"] == 1, *[ex.eq(a.get(k), v) if a.get(k) is not v else True for k, v in (("num_vectors", n), ("dimension", d), ("use_case", u))]))
        check_db(ex, r, types["t"], st, types["c"], None)
    ex.explore(thunk, "create recommended")


@unit("configs.get_recommended_config", "F01")
def recommend2_unit(ex):
    def thunk():
        setup(ex)
        n, d = ex.fresh("num_vectors", I), ex.fresh("dimension", I)
        u = ex.fresh("use_case", Str)
        st = ("memory", "disk", "hybrid")[ex.choose(3)]
        r = outcome(ex, lambda: ex.call(fn(ex, CFG + "get_recommended_config"), [n, d, u, st], {}))
        if r[0] == "exc":
            unexpected(ex, r, "in the recommendation")
        s = ex.dct(r[1])[1] if isinstance(r[1], VDict) and ex.dct(r[1])[0] == "c" else {}
        if not isinstance(s.get("index"), VDict) or not isinstance(s.get("storage"), VDict):
            ex.check("the recommendation names index and storage", False)
            raise PathEnd()
        t, c = rec_parts(ex, ("ret", s["index"]), "the recommendation")
        w = ex.dct(s["storage"])[1].get("type")
        ex.check("the storage kind asked for is recommended", ex.eq(w, st) if w is not None else False)
        fits(ex, t, c)
    ex.explore(thunk, "recommended config")


def snapshot(ex, v):
    if isinstance(v, VDict):
        s = ex.dct(v)
        if s[0] != "c":
            return ("sym", s)
        return {k: snapshot(ex, x) for k, x in s[1].items()}
    if isinstance(v, VList):
        return ("list", ex.lst(v))
    return v


def same_snap(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_snap(a[k], b[k]) for k in a)
    if is_z3(a) or is_z3(b):
        return is_z3(a) and is_z3(b) and a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_snap(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and a == b)


@unit("factory.create_from_template", "F01")
def template_unit(ex):
    def thunk():
        fac_setup(ex)
        T = ex.repo.dotted(FAC + "TEMPLATES")
        if not (isinstance(T, tuple) and T[0] == "expr"):
            raise Unsupported("templates")
        T = ex.module_expr(T)
        s = ex.dct(T)
        if s[0] != "c":
            raise Unsupported("templates")
        before = snapshot(ex, T)
        names = sorted(s[1])
        orig = {k: dict(ex.dct(v)[1]) for k, v in s[1].items()}
        i = ex.choose(len(names) + 1)
        over = {}
        if i == len(names):
            name = ex.fresh("template", Str)
            for n in names:
                ex.fact(name != lit(n))
        else:
            name = names[i]
        if ex.choose(2):
            over["index_type"] = ex.fresh("index_type", Str)
            ex.fact(slen(over["index_type"]) > 0)
        if ex.choose(2):
            over["storage_type"] = ex.fresh("storage_type", Str)
        if ex.choose(2):
            over["index_config"] = a_conf(ex, "index_conf")
        r = outcome(ex, lambda: ex.call(fn(ex, FAC + "create_from_template"), [name], dict(over)))
        ex.check("no template is changed", same_snap(snapshot(ex, ex.module_expr(ex.repo.dotted(FAC + "TEMPLATES"))), before))
        if i == len(names):
            ex.check("unknown templates are rejected", r[0] == "exc" and r[1].cls == "ValueError", where(r))
            reached(ex)
            return
        t = dict(orig[name], **over)
        if "index_type" not in t:
            raise Unsupported("template without an index kind")
        check_db(ex, r, ex.S(t["index_type"]), ex.S(t.get("storage_type", "memory")), t.get("index_config"), t.get("storage_config"))
    ex.explore(thunk, "create_from_template")
