"""ParserRegistry (R01)."""
from .comp import *

REG = "valori.parsers.registry.ParserRegistry"
PERR = "valori.exceptions.ParsingError"
TP = TObj("Parser")
TPARS, TPRIO, TCLS = TDict(TStr, TP), TDict(TStr, TInt), TDict(TStr, TObj("ParserClass"))
CAN = lambda p, x: F("can_parse", Obj, PathS, B)(p, x)
PARSED = lambda p, x: F("parse_result", Obj, PathS, Obj)(p, x)
FAILS = lambda p, x: F("parse_fails", Obj, PathS, B)(p, x)

READY = lambda p: F("parser_initialized", Obj, B)(p)


def to_path(ex, x):
    x = ex.unopt(x)
    return x if is_sort(x, PathS) else ex.call_lib("pathlib.Path", [x], {}, None)


def parser_attr(ex, o, name, node):
    """The abstract parser: can_parse is a predicate of parser and path; parse a function of both, or it fails."""
    def run(e, args, kw, n):
        if name == "can_parse":
            return CAN(o.term, to_path(e, args[0] if args else kw["file_path"]))
        if e.pure:
            raise NeedFork()
        if name == "parse":
            p = to_path(e, args[0] if args else kw["file_path"])
            if e.branch(FAILS(o.term, p)):
                raise PyRaise(VExc("Exception", ("parse failed",)))
            return VOpaque(PARSED(o.term, p), "parsed")
        if name in ("initialize", "close"):
            if e.choose(2):
                raise PyRaise(VExc("Exception", (name,)))
            if name == "initialize":
                e.fact(READY(o.term))
            return None
        if name == "get_supported_formats":
            return e.havoc_value(TList(TStr), "formats")
        raise Unsupported("parser method " + name)
    return VPy(run, name)


def class_call(ex, f, args, kw, node):
    if f.kind != "ParserClass":
        raise Unsupported("call of opaque " + f.kind)
    if ex.pure:
        raise NeedFork()
    if ex.choose(2):
        raise PyRaise(VExc("Exception", ("constructor",)))
    p = ex.fresh("new_parser", Obj)
    CLSOF = F("class_of_parser", Obj, Obj)
    ex.fact(CLSOF(p) == f.term)
    for d in ex.reg_parsers + ([ex.reg_now()] if ex.reg_now else []):
        k = z3.Const("k!np", Str)
        ex.fact(forall(k, IMP(z3.Select(d[0], k), z3.Select(d[1], k) != p), z3.Select(d[0], k)))      # a new object
    return VOpaque(p, "Parser")


class RegModel:
    def __init__(self, ex, o):
        self.ex, self.o = ex, o

    def havoc(self):
        ex, o = self.ex, self.o
        o.d["parsers"] = ex.havoc_value(TPARS, "parsers")
        o.d["parser_priorities"] = ex.havoc_value(TPRIO, "priorities")
        o.d["parser_classes"] = ex.havoc_value(TCLS, "classes")
        o.d["_initialized"] = ex.fresh("initialized", B)

    def P(self):
        p = self.o.d.get("parsers")
        if not isinstance(p, VDict):
            raise Unsupported("representation of ParserRegistry")
        s = self.ex.sym_dict(p, TStr, TP)
        return s

    def snap(self):
        s = self.P()
        self.dom0, self.map0 = s[1], s[2]
        self.ex.reg_parsers = [(s[1], s[2])]
        c = self.ex.sym_dict(self.o.d["parser_priorities"], TStr, TInt)
        self.pdom, self.pmap = c[1], c[2]

    def prio(self, k):
        return z3.If(z3.Select(self.pdom, k), z3.Select(self.pmap, k), 0)

    def inv(self, dom, mp):
        """Different names hold different parser objects."""
        a, b = z3.Consts("a!rg b!rg", Str)
        return forall([a, b], IMP(z3.And(z3.Select(dom, a), z3.Select(dom, b), a != b), z3.Select(mp, a) != z3.Select(mp, b)), (z3.Select(dom, a), z3.Select(dom, b)))


def reg_setup(ex):
    comp_setup(ex)
    ex.ifaces["Parser"] = parser_attr
    ex.ifaces["parsed"] = answer_attr
    ex.opaque_call = lambda f, a, kw, n: class_call(ex, f, a, kw, n)
    ci = ex.repo.cls(REG)
    o = VObj(ci)
    k, m = ci.find("__init__")
    ex.call_func(VFunc(m, k.mod, None, k, o), [VConf(types={})], {})
    M = RegModel(ex, o)
    ex.reg_now = None
    M.havoc()
    from .storage import havoc_rest
    havoc_rest(ex, o, {"_initialized", "config", "parsers", "parser_priorities", "parser_classes"})
    M.snap()
    ex.fact(M.inv(M.dom0, M.map0))
    return o, M


def arg_path(ex):
    return ex.fresh("file_path", PathS) if ex.choose(2) else ex.fresh("file_name", Str)


def picked(ex, M, nm, p, sup, pos):
    """nm/p is the parser the specification picks."""
    k = z3.Const("k!pk", Str)
    return z3.And(z3.Select(M.dom0, nm), z3.Select(M.map0, nm) == p, sup(p),
                  forall(k, IMP(z3.And(z3.Select(M.dom0, k), sup(z3.Select(M.map0, k))), z3.And(M.prio(k) <= M.prio(nm), IMP(M.prio(k) == M.prio(nm), pos(nm) <= pos(k)))), z3.Select(M.dom0, k)))


def reg_pool(ex, M, sup, enum):
    n, e, pos = enum
    cnt = F("supported_before_%d" % ex.fresh("cnt", I).get_id(), I, I)
    ex.fact(cnt(z3.IntVal(0)) == 0)
    m = z3.Int("m!ct")
    em = z3.Select(e, m)
    ex.fact(forall(m, IMP(z3.And(0 <= m, m < zi(n)), cnt(m + 1) == cnt(m) + z3.If(sup(z3.Select(M.map0, em)), 1, 0)), em))

    def pool(L):
        if L.i is None:
            return
        j, q, m = z3.Ints("j!rp q!rp m!rp")
        for nm, st, _ in ex.typed_lists(L):
            t = st[3]
            if not isinstance(t, (TTup, TObj, TBase)):
                continue
            ts = t.ts if isinstance(t, TTup) else (t,)
            get = lambda c, i: ex.acc(t, i, st[2](c)) if isinstance(t, TTup) else st[2](c)
            rng = z3.And(0 <= j, j < st[1])
            # the parser of an entry, and a name it determines
            pi = [i for i, x in enumerate(ts) if x == TP]
            ni = [i for i, x in enumerate(ts) if x == TStr]
            if pi:
                par = lambda c: get(c, pi[0])
                name = lambda c: F("name_of_parser", Obj, Str)(par(c))
            elif ni:
                name = lambda c: get(c, ni[0])
                par = lambda c: z3.Select(M.map0, name(c))
            else:
                continue
            yield nm + ":sound", forall(j, IMP(rng, z3.And(z3.Select(M.dom0, name(j)), z3.Select(M.map0, name(j)) == par(j), pos(name(j)) < L.i)), st[2](j))
            yield nm + ":sup", forall(j, IMP(rng, sup(par(j))), st[2](j))
            for i in ni:
                yield nm + ":name%d" % i, forall(j, IMP(rng, get(j, i) == name(j)), st[2](j))
            for i, x in enumerate(ts):
                if x == TInt:
                    yield nm + ":prio%d" % i, forall(j, IMP(rng, get(j, i) == M.prio(name(j))), st[2](j))
                    yield nm + ":nprio%d" % i, forall(j, IMP(rng, get(j, i) == -M.prio(name(j))), st[2](j))
            yield nm + ":order", forall([j, q], IMP(z3.And(0 <= j, j < q, q < st[1]), pos(name(j)) < pos(name(q))), (st[2](j), st[2](q)))
            k = z3.Const("k!rp", Str)
            yield nm + ":count", st[1] == cnt(L.i)
            w = cnt(pos(k))
            yield nm + ":complete", forall(k, IMP(z3.And(z3.Select(M.dom0, k), pos(k) < L.i, sup(z3.Select(M.map0, k))), z3.And(0 <= w, w < st[1], name(w) == k)), z3.Select(M.dom0, k))
        # running-best loops
        yield from best_of(ex, L, M, sup, pos)
    return pool


def best_of(ex, L, M, sup, pos):
    """Loops that keep the best parser so far."""
    cells = []
    for cell, t in L.info.mods.items():
        o = Val.registry[cell[0]]
        if o is ex.st or not isinstance(cell[1], str) or cell[1] in ("s", "version"):
            continue
        v = o.d.get(cell[1])
        none, x = (zb(v.isnone), v.value) if isinstance(v, VOpt) else (z3.BoolVal(v is None), v)
        if v is None and isinstance(t, TOpt):
            x = ex.unbox(t.t, z3.Const("nothing_" + t.t.name, t.t.sort()))
        cells.append(("C%d.%s" % cell, none, x))
    k = z3.Const("k!bo", Str)
    seen = z3.And(z3.Select(M.dom0, k), pos(k) < L.i, sup(z3.Select(M.map0, k)))
    for nm, none, x in cells:
        if isinstance(x, VOpaque) and x.kind == "Parser":
            p, n = x.term, F("name_of_parser", Obj, Str)(x.term)
        elif is_sort(x, Str):
            p, n = z3.Select(M.map0, x), x
        else:
            continue
        yield nm + ":none", z3.Implies(none, forall(k, z3.Not(seen), z3.Select(M.dom0, k)))
        yield nm + ":one", z3.Or(none, z3.And(z3.Select(M.dom0, n), z3.Select(M.map0, n) == p, sup(p), pos(n) < L.i))
        yield nm + ":best", z3.Or(none, forall(k, IMP(seen, z3.And(M.prio(k) <= M.prio(n), IMP(M.prio(k) == M.prio(n), pos(n) <= pos(k)))), z3.Select(M.dom0, k)))
        for n2, none2, y in cells:
            if n2 == nm:
                continue
            if isnum(y) and not is_sort(y, R):
                yield nm + n2 + ":prio", z3.Or(none, z3.And(z3.Not(none2), zi(y) == M.prio(n)))
            elif is_sort(y, Str):
                yield nm + n2 + ":name", z3.Or(none, z3.And(z3.Not(none2), y == n))
            elif isinstance(y, VOpaque):
                yield nm + n2 + ":same", z3.Or(none, z3.And(z3.Not(none2), y.term == p))


def enum_of(ex, o):
    """The registration order: (n, array, position)."""
    s = ex.dct(o.d["parsers"])
    n, e = ex.dict_enum(s)
    pos = F("reg_pos", Str, I)
    j, k = z3.Int("j!ro"), z3.Const("k!ro", Str)
    ej = z3.Select(e, j)
    ex.fact(forall(j, IMP(z3.And(0 <= j, j < zi(n)), pos(ej) == j), ej))
    ex.fact(forall(k, IMP(z3.Select(s[1], k), z3.And(0 <= pos(k), pos(k) < zi(n), z3.Select(e, pos(k)) == k)), z3.Select(s[1], k)))
    return n, e, pos


def name_facts(ex, M):
    k = z3.Const("k!nf", Str)
    nm = F("name_of_parser", Obj, Str)
    ex.fact(forall(k, IMP(z3.Select(M.dom0, k), nm(z3.Select(M.map0, k)) == k), z3.Select(M.dom0, k)))       # follows from the invariant
    return nm


def choice_spec(ex, M, o, path, pname, r, enum, of=None):
    """Common obligations of get_parser and parse_document."""
    n, e, pos = enum
    p0 = to_path(ex, path)
    sup = lambda p: CAN(p, p0)
    k = z3.Const("k!cs", Str)
    return sup, forall(k, IMP(z3.Select(M.dom0, k), z3.Not(sup(z3.Select(M.map0, k)))), z3.Select(M.dom0, k))


def get_unit(op):
    @unit("ParserRegistry." + op, "R01")
    def run(ex):
        def thunk():
            o, M = reg_setup(ex)
            path = arg_path(ex)
            pname = VOpt(ex.fresh("name_none", B), ex.fresh("parser_name", Str))
            enum = enum_of(ex, o)
            nmf = name_facts(ex, M)
            p0 = to_path(ex, path)
            sup = lambda p: CAN(p, p0)
            init0 = zb(ex.truth(o.d["_initialized"]))
            ex.loop_pools = [reg_pool(ex, M, sup, enum)]
            r = call(ex, o, op, path, pname)
            dm, mp = M.P()[1], M.P()[2]
            k = ex.fresh("k", Str)
            ex.check("%s does not change the registered parsers" % op, z3.And(z3.Select(dm, k) == z3.Select(M.dom0, k), IMP(z3.Select(dm, k), z3.Select(mp, k) == z3.Select(M.map0, k))))
            named = zb(ex.truth(pname))
            pn = pname.value
            none = forall(k, IMP(z3.Select(M.dom0, k), z3.Not(sup(z3.Select(M.map0, k)))), z3.Select(M.dom0, k))
            bad = z3.Or(z3.Not(init0), z3.And(named, z3.Not(z3.Select(M.dom0, pn))), z3.And(z3.Not(named), none))
            if r[0] == "exc":
                if exc_is(ex, r[1], PERR):
                    ex.check("a parser is refused only when there is none", bad, where(r))
                elif op == "parse_document":
                    x = ex.fresh("x", Str)
                    bad2 = z3.Not(bad)
                    ex.check("another error only comes from the picked parser", bad2, where(r))
                else:
                    unexpected(ex, r)
                reached(ex)
                return
            ex.check("without a usable parser the call fails", z3.Not(bad))
            r = (r[0], ex.known(r[1]))
            if not isinstance(r[1], VOpaque) or r[1].kind != ("Parser" if op == "get_parser" else "parsed"):
                raise Unsupported("result of " + op)
            if op == "get_parser":
                p = r[1].term
                ex.check("a parser requested by name is used", IMP(named, p == z3.Select(M.map0, pn)))
                ex.check("the picked parser is registered and supports the path", IMP(z3.Not(named), z3.And(z3.Select(M.dom0, nmf(p)), z3.Select(M.map0, nmf(p)) == p, sup(p))))
                g = z3.And(z3.Not(named), z3.Select(M.dom0, k), sup(z3.Select(M.map0, k)))
                ex.check("no supporting parser has a higher priority", IMP(g, M.prio(k) <= M.prio(nmf(p))))
                ex.check("the first of equal priority is picked", IMP(z3.And(g, M.prio(k) == M.prio(nmf(p))), enum[2](nmf(p)) <= enum[2](k)))
            else:
                # a function of the path and the picked parser: get_parser's contract gives the parser
                q = ex.got_parser
                ex.check("the document is parsed by the picked parser", r[1].term == PARSED(q, p0) if q is not None else z3.BoolVal(False))
            reached(ex)

        def start():
            ex.got_parser = None
            if op == "parse_document":
                ex.contracts[REG + ".get_parser"] = get_contract
            else:
                ex.contracts.pop(REG + ".get_parser", None)
            thunk()
        ex.explore(start, op)
    return run


def get_contract(ex, obj, args, kw, node):
    """What get_parser's unit proves, as a contract for its caller."""
    if ex.pure:
        raise NeedFork()
    M = RegModel(ex, obj)
    M.snap()
    path = args[0] if args else kw["file_path"]
    pname = args[1] if len(args) > 1 else kw.get("parser_name")
    p0 = to_path(ex, path)
    init = zb(ex.truth(obj.d["_initialized"]))
    named = zb(ex.truth(pname))
    pn = ex.S(pname.value if isinstance(pname, VOpt) else pname) if pname is not None else z3.StringVal("") if False else lit("")
    k = z3.Const("k!gc", Str)
    none = forall(k, IMP(z3.Select(M.dom0, k), z3.Not(CAN(z3.Select(M.map0, k), p0))), z3.Select(M.dom0, k))
    bad = z3.Or(z3.Not(init), z3.And(named, z3.Not(z3.Select(M.dom0, pn))), z3.And(z3.Not(named), none))
    if ex.branch(bad):
        raise PyRaise(VExc(ex.repo.cls(PERR), ("no parser",)))
    p = PICK(M.dom0, M.map0, M.pdom, M.pmap, p0)
    r = z3.If(named, z3.Select(M.map0, pn), p)
    ex.got_parser = r if ex.got_parser is None else ex.got_parser
    return VOpaque(r, "Parser")


def PICK(dom, mp, pd, pm, path):
    return F("picked_parser", dom.sort(), mp.sort(), pd.sort(), pm.sort(), PathS, Obj)(dom, mp, pd, pm, path)


for _n in ("get_parser", "parse_document"):
    get_unit(_n)


@unit("ParserRegistry.add_parser", "R01")
def add_unit_(ex):
    def thunk():
        o, M = reg_setup(ex)
        name = ex.fresh("name", Str)
        cls = VOpaque(ex.fresh("cls", Obj), "ParserClass")
        r = call(ex, o, "add_parser", name, cls, VConf(types={}))
        s, k = M.P(), ex.fresh("k", Str)
        ex.check("adding a parser leaves the others alone", IMP(k != name, z3.And(z3.Select(s[1], k) == z3.Select(M.dom0, k), IMP(z3.Select(s[1], k), z3.Select(s[2], k) == z3.Select(M.map0, k)))))
        if r[0] == "exc":
            ex.check("a failed addition is reported with the parsing error", exc_is(ex, r[1], PERR), where(r))
            ex.check("a failed addition changes nothing", z3.And(z3.Select(s[1], name) == z3.Select(M.dom0, name), IMP(z3.Select(s[1], name), z3.Select(s[2], name) == z3.Select(M.map0, name))))
        else:
            ex.check("the added parser is registered and initialized", z3.And(z3.Select(s[1], name), READY(z3.Select(s[2], name))))
            c = ex.sym_dict(o.d["parser_priorities"], TStr, TInt)
            ex.check("different names hold different parsers", M.inv(s[1], s[2]))
        c = ex.sym_dict(o.d["parser_priorities"], TStr, TInt)
        ex.check("priorities of the others stay", IMP(k != name, z3.If(z3.Select(c[1], k), z3.Select(c[2], k), 0) == M.prio(k)))
        reached(ex)
    ex.explore(thunk, "add_parser")


@unit("ParserRegistry.remove_parser", "R01")
def remove_unit_(ex):
    def thunk():
        o, M = reg_setup(ex)
        name = ex.fresh("name", Str)
        r = call(ex, o, "remove_parser", name)
        s, k = M.P(), ex.fresh("k", Str)
        ex.check("removing a parser leaves the others alone", IMP(k != name, z3.And(z3.Select(s[1], k) == z3.Select(M.dom0, k), IMP(z3.Select(s[1], k), z3.Select(s[2], k) == z3.Select(M.map0, k)))))
        if r[0] != "exc":
            ex.check("a removed parser is gone", z3.Not(z3.Select(s[1], name)))
        c = ex.sym_dict(o.d["parser_priorities"], TStr, TInt)
        ex.check("priorities of the others stay", IMP(k != name, z3.If(z3.Select(c[1], k), z3.Select(c[2], k), 0) == M.prio(k)))
        reached(ex)
    ex.explore(thunk, "remove_parser")


@unit("ParserRegistry.initialize", "R01")
def init_unit_(ex):
    def thunk():
        o, M = reg_setup(ex)
        conf = ex.havoc_value(TDict(TStr, TObj("config")), "parser_configs")
        cdom = ex.sym_dict(conf, TStr, TObj("config"))[1]
        has = ex.fresh("has_parsers", B)
        o.d["config"] = VConf({"parsers": (has, conf)}, "config", {})
        ex.reg_now = lambda: M.P()[1:3]
        cl = ex.sym_dict(o.d["parser_classes"], TStr, TObj("ParserClass"))
        CLSOF = F("class_of_parser", Obj, Obj)
        k0 = z3.Const("k!ri", Str)
        named = lambda k: z3.And(has, z3.Select(cdom, k), z3.Select(cl[1], k))

        def rel(s):
            kk = lambda f: forall(k0, f, z3.Select(s[1], k0))
            k1 = z3.Const("k!rj", Str)
            yield "registered parsers stay registered", forall(k1, IMP(z3.Select(M.dom0, k1), z3.Select(s[1], k1)), z3.Select(M.dom0, k1))
            yield "a registered parser was registered before or is a new, initialized one of the class of its name", kk(IMP(z3.Select(s[1], k0), z3.Or(
                z3.And(z3.Select(M.dom0, k0), z3.Select(s[2], k0) == z3.Select(M.map0, k0)),
                z3.And(named(k0), READY(z3.Select(s[2], k0)), CLSOF(z3.Select(s[2], k0)) == z3.Select(cl[2], k0)))))
            yield "different names hold different parsers", M.inv(s[1], s[2])

        def pool(L):
            s = M.P()
            for nm, f in rel(s):
                yield "reg:" + nm, f
        ex.loop_pools = [pool]
        r = call(ex, o, "initialize")
        if r[0] == "exc":
            unexpected(ex, r)
            return
        ex.check("the registry is initialized", zb(ex.truth(o.d["_initialized"])))
        for nm, f in rel(M.P()):
            ex.check("initialize: " + nm, f)
        c = ex.sym_dict(o.d["parser_priorities"], TStr, TInt)
        k = ex.fresh("k", Str)
        ex.check("initialize leaves the priorities alone", z3.And(z3.Select(c[1], k) == z3.Select(M.pdom, k), IMP(z3.Select(c[1], k), z3.Select(c[2], k) == z3.Select(M.pmap, k))))
        reached(ex)
    ex.explore(thunk, "initialize")
