"""Contracts of the storage backends (S01-S05)."""
import ast
from .common import *

MEM, DISK, HYB = "valori.storage.memory.MemoryStorage", "valori.storage.disk.DiskStorage", "valori.storage.hybrid.HybridStorage"
OPS = ("store_vector", "retrieve_vector", "delete_vector", "update_vector", "list_vectors", "get_stats")


# ------------------------------------------------------------------ MemoryStorage
class MemModel:
    """Abstraction and invariant of MemoryStorage."""

    def __init__(self, ex, obj):
        self.ex, self.o = ex, obj

    def state(self):
        ex = self.ex
        v, m = self.o.d["vectors"], self.o.d["metadata"]
        if not isinstance(v, VDict) or not isinstance(m, VDict):
            raise Unsupported("representation of MemoryStorage")
        sv, sm = ex.sym_dict(v, TStr, TArr), ex.sym_dict(m, TStr, TMeta)
        return sv[1], sv[2], sm[1], sm[2], ex.st.d["Hvec"], ex.st.d["Hmeta"]

    def view(self):
        dom, mp, md, mm, hv, hm = self.state()
        return dom, (lambda k: z3.Select(dom, k)), (lambda k: z3.Select(hv, z3.Select(mp, k))), \
            (lambda k: z3.If(z3.Select(md, k), z3.Select(hm, z3.Select(mm, k)), NOMETA))

    def inv(self):
        ex = self.ex
        dom, mp, md, mm, hv, hm = self.state()
        k, l = z3.Const("k!i", Str), z3.Const("l!i", Str)
        al = ex.st.d["alloc"]
        S = z3.Select
        yield "stored arrays are private", "S02", forall(k, IMP(S(dom, k), z3.And(z3.Not(client(S(mp, k))), S(mp, k) >= 0, S(mp, k) < al)), S(mp, k))
        yield "stored metadata is private", "S02", forall(k, IMP(S(md, k), z3.And(z3.Not(client(S(mm, k))), S(mm, k) >= 0, S(mm, k) < al)), S(mm, k))
        yield "no array is shared between ids", "", forall([k, l], IMP(z3.And(S(dom, k), S(dom, l), k != l), S(mp, k) != S(mp, l)), (S(mp, k), S(mp, l)))
        yield "metadata is a dictionary", "", forall(k, IMP(S(md, k), S(hm, S(mm, k)) != NOMETA), S(mm, k))
        yield "the empty id is never live", "", z3.Not(S(dom, lit("")))
        yield "vector count", "S05", IMP(zb(self.init()), zi(self.o.d["_vector_count"]) == ex.card(dom))

    def init(self):
        return self.ex.truth(self.o.d["_initialized"])

    def isolated(self, ref_v, ref_m):
        """The references handed to the caller are not held by the storage."""
        dom, mp, md, mm, hv, hm = self.state()
        k = z3.Const("k!s", Str)
        S = z3.Select
        if ref_v is not None:
            yield "returned array is not the stored one", forall(k, IMP(S(dom, k), S(mp, k) != ref_v), S(mp, k))
        if ref_m is not None:
            yield "returned metadata is not the stored one", forall(k, IMP(S(md, k), S(mm, k) != ref_m), S(mm, k))


def mem_arbitrary(ex):
    setup(ex)
    ex.strict_cast = True
    o, c = build(ex, MEM)
    o.d["_vector_count"] = ex.fresh("vector_count", I)
    o.d["_memory_usage"] = ex.fresh("memory_usage", I)
    o.d["vectors"] = ex.havoc_value(TDict(TStr, TArr), "vectors")
    o.d["metadata"] = ex.havoc_value(TDict(TStr, TMeta), "metadata")
    o.d["_initialized"] = ex.fresh("initialized", B)
    havoc_rest(ex, o, {"_vector_count", "_memory_usage", "vectors", "metadata", "_initialized", "config", "lock"})
    M = MemModel(ex, o)
    for nm, _, f in M.inv():
        ex.fact(f)
    return o, M


def havoc_rest(ex, o, known):
    """Fields this contract does not know: arbitrary values of the type __init__ gives them."""
    for k, v in list(o.d.items()):
        if k in known or isinstance(v, (VCtx, VConf, VObj, VFunc, VPy)):
            continue
        try:
            t = ex.type_of(v)
            if ex.complete(t):
                o.d[k] = ex.havoc_value(t, k)
        except Unsupported:
            pass


def op_args(ex, op):
    k = ex.fresh("id", Str)
    ex.fact(slen(k) >= 0)
    ex.fact((slen(k) == 0) == (k == lit("")))
    if op in ("store_vector", "update_vector"):
        return [k, arg_vec(ex), arg_meta(ex)]
    if op in ("retrieve_vector", "delete_vector"):
        return [k]
    if op == "list_vectors":
        return [nonneg_opt_int(ex, "limit")]
    return []


def twin_of(ex, M):
    """Abstract store with the same contents as the implementation."""
    dom, has, vec, meta = M.view()
    t = VObj("Storage")
    s = fresh_store(ex, "T")
    k = z3.Const("k!t", Str)
    if dom is not None:
        s.dom = dom
    else:
        ex.fact(forall(k, s.has(k) == has(k), s.has(k)))
        ex.fact(forall(k, s.has(k) == has(k), M.trigger(k)))
        # the invariant makes ids and vector files correspond one to one, so there are equally many
        ex.fact(ex.card(s.dom) == M.count(None))
    ex.fact(forall(k, IMP(s.has(k), s.v(k) == vec(k)), s.v(k)))
    ex.fact(forall(k, IMP(s.has(k), s.m(k) == meta(k)), s.m(k)))
    t.d.update({"$dom": s.dom, "$vec": s.vec, "$meta": s.meta, "$init": M.init()})
    return t


def check_op(ex, op, M, args):
    """The implementation step refines the abstract step."""
    o = M.o
    t = twin_of(ex, M)
    pre = store_of(t)
    r = call(ex, o, op, *args)
    s = outcome(ex, lambda: STORE_OPS[op](ex, t, args, {}))
    post = store_of(t)
    if r[0] == "exc":
        if s[0] == "exc":
            ex.check("error is a StorageError", exc_is(ex, r[1], "valori.exceptions.StorageError"), where(r), ("S01",))
        else:
            unexpected(ex, r)
    elif s[0] == "exc":
        ex.check("an uninitialized backend refuses %s" % op, False, "", ("S01",))
        raise PathEnd()
    else:
        check_result(ex, op, r[1], s[1], pre, M)
    dom, has, vec, meta = M.view()
    k = ex.fresh("anyid", Str)
    ex.check("%s changes exactly the given id: liveness" % op, has(k) == post.has(k), "", ("S01", "S03", "S04", "S05"))
    ex.check("%s changes exactly the given id: vector" % op, IMP(post.has(k), vec(k) == post.v(k)), "", ("S01", "S03", "S04"))
    ex.check("%s changes exactly the given id: metadata" % op, IMP(post.has(k), meta(k) == post.m(k)), "", ("S01", "S03", "S04"))
    for nm, ps, f in M.inv():
        ex.check("invariant after %s: %s" % (op, nm), f, "", tuple(ps.split()) or None)
    reached(ex)


def check_result(ex, op, r, s, pre, M):
    if op in ("store_vector", "update_vector", "delete_vector"):
        if not (isinstance(r, bool) or is_sort(r, B)):
            ex.check("%s reports a bool" % op, False, "", ("S01",))
            return
        ex.check("%s reports whether it took effect" % op, zb(r) == zb(s), "", ("S01",))
    elif op == "retrieve_vector":
        r = narrow(ex, r)
        if r is None:
            ex.check("retrieve returns nothing only for an absent id", s.isnone, "", ("S01", "S03"))
            return
        ex.check("retrieve returns data only for a live id", NOT(s.isnone), "", ("S01", "S03"))
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], VArr)):
            raise Unsupported("retrieve result")
        ex.check("retrieved vector", content_vec(ex, r[0]) == content_vec(ex, s.value[0]), "", ("S01", "S03"))
        ex.check("retrieved metadata", content_meta(ex, r[1]) == content_meta(ex, s.value[1]), "", ("S01", "S03"))
        md = narrow(ex, r[1])
        for nm, f in M.isolated(r[0].ref, ref_of_meta(md)):
            ex.check(nm, f, "", ("S02",))
    elif op == "list_vectors":
        check_listing(ex, r, s, pre)
    elif op == "get_stats":
        cnt = stats_count(ex, r)
        if cnt is None:
            ex.check("statistics report the vector count", NOT(zb(M.init())), "", ("S05",))
        else:
            ex.check("reported vector count", IMP(zb(M.init()), zi(cnt) == M.count(pre) if hasattr(M, "count") else zi(cnt) == ex.card(pre.dom)), "", ("S05",))


def stats_count(ex, r):
    if not isinstance(r, VDict) or ex.dct(r)[0] != "c":
        raise Unsupported("statistics")
    d = ex.dct(r)[1]
    if "vector_count" in d:
        return d["vector_count"]
    if "disk" in d:
        return stats_count(ex, d["disk"])
    return None


def check_listing(ex, r, s, pre, props=("S05",), count=None):
    if not isinstance(r, VList):
        raise Unsupported("listing")
    n, sn = ex.list_len(r), ex.list_len(s)
    ex.check("number of listed ids", zi(n) == zi(sn), "", props)
    i, j = ex.fresh("i", I), ex.fresh("j", I)
    rng = z3.And(0 <= i, i < zi(n))
    if not isinstance(n, int):
        a, b = ex.S(ex.list_get(r, i)), ex.S(ex.list_get(r, j))
        ex.check("only live ids are listed", IMP(rng, pre.has(a)), "", props)
        ex.check("no id is listed twice", IMP(z3.And(rng, i < j, j < zi(n)), a != b), "", props)
    else:
        for q in range(n):
            ex.check("only live ids are listed", pre.has(ex.S(ex.list_get(r, q))), "", props)


def mem_unit(op):
    @unit("MemoryStorage." + op, "S01 S02 S05" if op != "list_vectors" else "S05 S01")
    def run(ex):
        def thunk():
            o, M = mem_arbitrary(ex)
            check_op(ex, op, M, op_args(ex, op))
        ex.explore(thunk, op)
    return run


for _op in OPS:
    mem_unit(_op)


@unit("MemoryStorage.lifecycle", "S01 S02 S05")
def _(ex):
    def thunk():
        k = ex.choose(2)
        if k == 0:
            setup(ex)
            o, c = build(ex, MEM)
            M = MemModel(ex, o)
            ex.check("a new storage is not initialized", NOT(zb(M.init())))
        else:
            o, M = mem_arbitrary(ex)
        op = "initialize" if ex.choose(2) == 0 else "close"
        r = call(ex, o, op)
        if r[0] == "exc":
            unexpected(ex, r)
        dom, has, vec, meta = M.view()
        k = ex.fresh("anyid", Str)
        ex.check("%s leaves an empty storage" % op, z3.Not(has(k)))
        ex.check("%s sets the initialized flag" % op, zb(M.init()) == (op == "initialize"))
        for nm, ps, f in M.inv():
            ex.check("invariant after %s: %s" % (op, nm), f, "", tuple(ps.split()) or None)
        reached(ex)
    ex.explore(thunk, "lifecycle")


# ------------------------------------------------------------------ DiskStorage
SAN = "valori.storage.disk.DiskStorage._sanitize_id"
RES = "valori.storage.disk.DiskStorage._restore_id"
san, res = F("san", Str, Str), F("res", Str, Str)


def c_sanitize(ex, self, args, kw, node=None):
    """Contract of _sanitize_id: injective (with inverse _restore_id) onto file-name-safe strings."""
    k = ex.S(ex.unopt(args[0] if args else kw["id"]))
    r = san(k)
    san_facts(ex, k)
    return r


def c_restore(ex, self, args, kw, node=None):
    k = ex.S(ex.unopt(args[0] if args else kw["safe_id"]))
    r = res(k)
    ex.fact(slen(r) >= 0)
    return r


def san_facts(ex, k):
    r = san(k)
    ex.fact(z3.And(res(r) == k, F("nosep", Str, B)(r), slen(r) >= 0, IMP(slen(k) > 0, slen(r) > 0)))


class DiskModel:
    def __init__(self, ex, obj):
        self.ex, self.o = ex, obj

    def init(self):
        return self.ex.truth(self.o.d["_initialized"])

    def trigger(self, k):
        return san(k)

    def vp(self, k):
        return F("pjoin", PathS, Str, PathS)(self.o.d["vectors_dir"], sconcat(san(k), lit(".npy")))

    def mp(self, k):
        return F("pjoin", PathS, Str, PathS)(self.o.d["metadata_dir"], sconcat(san(k), lit(".pkl")))

    def view(self):
        fe, fd = self.ex.st.d["fexists"], self.ex.st.d["fdata"]
        S = z3.Select
        return None, (lambda k: z3.And(k != lit(""), S(fe, self.vp(k)))), (lambda k: F("arr_of_file", Obj, Arr)(S(fd, self.vp(k)))), \
            (lambda k: z3.If(S(fe, self.mp(k)), F("meta_of_file", Obj, MetaV)(S(fd, self.mp(k))), NOMETA))

    def files(self):
        return self.ex.globset(self.ex.st.d["fexists"], self.o.d["vectors_dir"], ".npy")

    def count(self, pre):
        return self.ex.card(self.files())

    def inv(self):
        ex = self.ex
        fe, fd = ex.st.d["fexists"], ex.st.d["fdata"]
        g = self.files()
        p, k = z3.Const("p!i", PathS), z3.Const("k!i", Str)
        st = F("nstem", Str, Str)(F("pname", PathS, Str)(p))
        S = z3.Select
        yield "every vector file is the file of the id it restores to", "S01 S04 S05", \
            forall(p, IMP(S(g, p), z3.And(p == self.vp(res(st)), res(st) != lit(""), san(res(st)) == st)), S(g, p))
        yield "the empty id has no file", "", z3.Not(S(fe, self.vp(lit(""))))
        yield "vector count", "S05", IMP(zb(self.init()), zi(self.o.d["_vector_count"]) == ex.card(g))

    def isolated(self, rv, rm):
        """Nothing handed out is held by the backend: its contents live in files."""
        yield "returned vector is a fresh array", z3.BoolVal(rv is None)
        yield "returned metadata is a fresh dictionary", z3.BoolVal(rm is None)


def disk_setup(ex):
    setup(ex, fs=True)
    ex.strict_cast = True
    ex.contracts[SAN] = c_sanitize
    ex.contracts[RES] = c_restore
    k = z3.Const("k!san", Str)
    ex.raw_fact(forall(k, z3.And(res(san(k)) == k, F("nosep", Str, B)(san(k)), IMP(slen(k) > 0, slen(san(k)) > 0)), san(k)))
    # strings and lengths
    ex.raw_fact(forall(k, z3.And(slen(k) >= 0, (slen(k) == 0) == (k == lit(""))), slen(k)))
    o = z3.Const("o!f", Obj)
    ex.raw_fact(forall(o, F("meta_of_file", Obj, MetaV)(o) != NOMETA, F("meta_of_file", Obj, MetaV)(o)))
    for s in ("vectors", "metadata"):
        ex.raw_fact(F("simple_name", Str, B)(lit(s)))


def disk_arbitrary(ex, init=None):
    disk_setup(ex)
    o, c = build(ex, DISK)
    o.d["_vector_count"] = ex.fresh("vector_count", I)
    o.d["_initialized"] = ex.fresh("initialized", B) if init is None else init
    havoc_rest(ex, o, {"_vector_count", "_initialized", "config", "data_dir", "vectors_dir", "metadata_dir"})
    M = DiskModel(ex, o)
    for nm, _, f in M.inv():
        ex.fact(f)
    return o, M


def disk_unit(op):
    @unit("DiskStorage." + op, "S01 S02 S04 S05")
    def run(ex):
        def thunk():
            o, M = disk_arbitrary(ex)
            check_op(ex, op, M, op_args(ex, op))
        ex.explore(thunk, op)
    return run


for _op in OPS:
    disk_unit(_op)


@unit("DiskStorage.lifecycle", "S01 S04 S05")
def _(ex):
    """initialize and close keep every file; a new backend on the directory sees the same data."""
    def thunk():
        if ex.choose(2) == 0:
            o, M = disk_arbitrary(ex)
            op = "close"
        else:
            o, M = disk_arbitrary(ex, init=False)     # what __init__ builds, on any directory left behind
            op = "initialize"
        dom, has, vec, meta = M.view()
        r = call(ex, o, op)
        if r[0] == "exc":
            unexpected(ex, r)
        dom, has2, vec2, meta2 = M.view()
        k = ex.fresh("anyid", Str)
        ex.check("%s keeps the ids" % op, has(k) == has2(k))
        ex.check("%s keeps the vectors" % op, IMP(has(k), vec(k) == vec2(k)))
        ex.check("%s keeps the metadata" % op, IMP(has(k), meta(k) == meta2(k)))
        ex.check("%s sets the initialized flag" % op, zb(M.init()) == (op == "initialize"))
        for nm, ps, f in M.inv():
            ex.check("invariant after %s: %s" % (op, nm), f, "", tuple(ps.split()) or None)
        reached(ex)
    ex.explore(thunk, "lifecycle")


# ------------------------------------------------------------------ HybridStorage
class HybModel:
    """Contents of a hybrid backend = contents of its disk tier; the memory tier is a bounded part of it."""

    def __init__(self, ex, obj):
        self.ex, self.o = ex, obj
        self.mem, self.disk = obj.d["memory_storage"], obj.d["disk_storage"]

    def init(self):
        return self.ex.truth(self.o.d["_initialized"])

    def view(self):
        d = store_of(self.disk)
        return d.dom, d.has, d.v, d.m

    def count(self, pre):
        return self.ex.card(store_of(self.disk).dom)

    def inv(self):
        ex = self.ex
        m, d = store_of(self.mem), store_of(self.disk)
        k = z3.Const("k!i", Str)
        lim = zi(self.o.d["memory_limit"])
        ini = zb(self.init())
        yield "both tiers are initialized", "", IMP(ini, z3.And(zb(self.mem.d["$init"]), zb(self.disk.d["$init"])))
        yield "memory tier is part of the disk tier", "", IMP(ini, forall(k, IMP(m.has(k), d.has(k)), m.has(k)))
        yield "memory tier has the disk tier's vectors", "", IMP(ini, forall(k, IMP(m.has(k), m.v(k) == d.v(k)), m.v(k)))
        yield "memory tier has the disk tier's metadata", "", IMP(ini, forall(k, IMP(m.has(k), m.m(k) == d.m(k)), m.m(k)))
        yield "memory tier is bounded", "S03", IMP(ini, ex.card(m.dom) <= z3.If(lim >= 1, lim, 1))

    def isolated(self, rv, rm):
        """The tiers keep copies (their contract) and hand out copies, so nothing returned is shared."""
        yield "returned vector is not shared", z3.BoolVal(True)

    def returns_fresh(self):
        return True


def hyb_arbitrary(ex, init=None):
    setup(ex)
    use_storage_contracts(ex)
    conf = VConf(types={"memory_limit": TInt, "memory": lambda e, k: VConf(), "disk": lambda e, k: VConf()})
    o, c = build(ex, HYB, conf)
    known = {"memory_storage", "disk_storage", "memory_limit", "_initialized", "config", "lock"}
    if init is None:
        for t in ("memory_storage", "disk_storage"):
            o.d[t].d["$init"] = ex.fresh("init_" + t, B)
    o.d["_initialized"] = ex.fresh("initialized", B) if init is None else init
    havoc_rest(ex, o, known)
    M = HybModel(ex, o)
    for nm, _, f in M.inv():
        ex.fact(f)
    return o, M


def hyb_unit(op):
    @unit("HybridStorage." + op, "S01 S02 S03 S04 S05")
    def run(ex):
        def thunk():
            o, M = hyb_arbitrary(ex)
            check_op(ex, op, M, op_args(ex, op))
        ex.explore(thunk, op)
    return run


for _op in OPS:
    hyb_unit(_op)


@unit("HybridStorage.lifecycle", "S01 S03 S04 S05")
def _(ex):
    def thunk():
        if ex.choose(2) == 0:
            o, M = hyb_arbitrary(ex)
            op = "close"
        else:
            o, M = hyb_arbitrary(ex, init=False)
            op = "initialize"
        dom, has, vec, meta = M.view()
        r = call(ex, o, op)
        if r[0] == "exc":
            unexpected(ex, r)
        dom, has2, vec2, meta2 = M.view()
        k = ex.fresh("anyid", Str)
        ex.check("%s keeps the ids" % op, has(k) == has2(k))
        ex.check("%s keeps the vectors" % op, IMP(has(k), vec(k) == vec2(k)))
        ex.check("%s keeps the metadata" % op, IMP(has(k), meta(k) == meta2(k)))
        ex.check("%s sets the initialized flag" % op, zb(M.init()) == (op == "initialize"))
        for nm, ps, f in M.inv():
            ex.check("invariant after %s: %s" % (op, nm), f, "", tuple(ps.split()) or None)
        reached(ex)
    ex.explore(thunk, "lifecycle")


# ------------------------------------------------------------------ file names of ids
def _pure_names(ex, mod, node, allowed, depth=0):
    """The expression depends on nothing but `allowed`, builtins, module constants and functions of the same kind."""
    import builtins
    if depth > 4:
        return False
    bound = set(allowed)
    for n in ast.walk(node):
        if isinstance(n, (ast.comprehension,)):
            bound |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.Lambda):
            bound |= {a.arg for a in n.args.args}
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Name) and n.id not in bound and not hasattr(builtins, n.id):
            return False
    return True


def codec_shape(ex):
    """The two shape rules of the file-name codec; Unsupported when the code has another form."""
    ci = ex.repo.cls(DISK)
    k, m = ci.find("_sanitize_id") or (None, None)
    if m is None or ci.find("_restore_id") is None:
        raise Unsupported("file-name codec not found")

    def ret_expr(fn):
        """Substitute single-assignment locals into the returned expression."""
        env, out = {}, None
        for s in fn.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and t.id not in env and s.value is not None:
                    env[t.id] = s.value
                    continue
            if isinstance(s, ast.Return) and s.value is not None:
                out = s.value
                break
            raise Unsupported("form of %s" % fn.name)

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                return self.visit(env[n.id]) if isinstance(n.ctx, ast.Load) and n.id in env else n
        return Sub().visit(out)
    p = m.args.args[1].arg
    e = ret_expr(m)
    ok = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "join" and isinstance(e.func.value, ast.Constant) \
        and e.func.value.value == "" and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))
    if ok:
        g = e.args[0]
        ok = len(g.generators) == 1 and not g.generators[0].ifs and isinstance(g.generators[0].target, ast.Name) \
            and isinstance(g.generators[0].iter, ast.Name) and g.generators[0].iter.id == p and _pure_names(ex, k.mod, g.elt, {g.generators[0].target.id})
    if not ok:
        raise Unsupported("_sanitize_id is not letter-wise in form")
    k2, r = ci.find("_restore_id")
    e = ret_expr(r)
    ok = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "sub" and isinstance(e.func.value, ast.Name) and e.func.value.id == "re" \
        and len(e.args) == 3 and not e.keywords and isinstance(e.args[0], ast.Constant) and e.args[0].value == "%([0-9a-f]{6})" \
        and isinstance(e.args[2], ast.Name) and e.args[2].id == r.args.args[1].arg and isinstance(e.args[1], ast.Lambda) and _pure_names(ex, k2.mod, e.args[1], set())
    if not ok:
        raise Unsupported("_restore_id is not a substitution of code words in form")


@unit("DiskStorage.file_names", "S01 S04 S05")
def _(ex):
    """Contract of _sanitize_id/_restore_id: letter-wise prefix code, every code point evaluated on the real functions."""
    import os
    import sys
    import json
    import subprocess
    import tempfile
    codec_shape(ex)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(here, "harness"))
    import call as hcall
    d = tempfile.mkdtemp(prefix="pyvc-", dir="/tmp")
    os.chmod(d, 0o755)
    try:
        env = hcall.env()
        p = subprocess.run([hcall.PY, os.path.join(here, "harness", "codec.py"), d], env=env, capture_output=True, text=True, timeout=200)
        try:
            r = json.loads(p.stdout)
        except ValueError:
            raise Unsupported("code-point enumeration failed: " + p.stderr[-300:])
    finally:
        import shutil
        if d.startswith("/tmp/pyvc-"):
            shutil.rmtree(d, ignore_errors=True)
    ex.inlined |= {SAN, RES}
    ex.manual("every code point has a safe, decodable code word", not r["bad"] and r["n"] == 0x110000, "enumeration of 1114112 code points", str(r["bad"]))
    ex.manual("the empty id has the empty name", r["empty"], "enumeration", "")
    ex.reached = 1
