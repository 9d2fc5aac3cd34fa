"""ProcessingPipeline (B01)."""
from .comp import *

PIPE = "valori.processors.pipeline.ProcessingPipeline"
PRERR = "valori.exceptions.ProcessingError"
STAGES = (("cleaning", "valori.processors.cleaning.CleaningProcessor"), ("chunking", "valori.processors.chunking.ChunkingProcessor"),
          ("embedding", "valori.processors.embedding.EmbeddingProcessor"))


def answer_setitem(ex, c, ix, v, node):
    """Decoration of a document: only the pipeline metadata may be added."""
    if not (isinstance(c, VOpaque) and c.kind == "answer"):
        raise Unsupported("item assignment")
    if not (isinstance(ix, str) and ix == "pipeline_metadata"):
        ex.check("a document is only decorated with pipeline metadata", False, "key %r" % (ix,))


def pipe_setup(ex, conf=None):
    comp_setup(ex)
    named_attrs(ex)
    ex.opaque_setitem = lambda c, ix, v, node=None: answer_setitem(ex, c, ix, v, node)
    ci = ex.repo.cls(PIPE)
    o = VObj(ci)
    k, m = ci.find("__init__")
    ex.call_func(VFunc(m, k.mod, None, k, o), [conf if conf is not None else VConf(types={})], {})
    return o


def any_pipe(ex):
    """Any pipeline that may have been initialized: the processors are those configured, in order (invariant proved by the initialize unit)."""
    o = pipe_setup(ex)
    init = ex.choose(2) == 1
    if init:
        procs = [comp(ex, n) for n, _ in STAGES if ex.choose(2)]
        o.d["processors"] = VList(("c", procs))
        o.d["parser_registry"] = comp(ex, "registry")
        o.d["_initialized"] = True
    else:
        procs = []
    from .storage import havoc_rest
    havoc_rest(ex, o, {"config", "processors", "parser_registry", "_initialized"})
    return o, init, procs


def docarg(ex, name="text"):
    return ex.fresh(name, Str)


def chain(ex, o, procs, what, r, first):
    """The stages receive exactly the output of the stage before; the result is the output of the last."""
    log = [x for x in calls(ex) if x[1] == "process"]
    n = len(log)
    ex.check("each stage runs at most once, in the configured order", [x[0] for x in log] == [p.d["$name"] for p in procs][:n], str([x[0] for x in log]))
    if [x[0] for x in log] != [p.d["$name"] for p in procs][:n]:
        raise PathEnd()
    cur = first
    for x in log:
        a = x[2] + tuple(v for _, v in x[3])
        if callable(cur):
            cur(a[0] if len(a) == 1 else None, "the first stage")
        else:
            ex.check("each stage receives the output of the stage before", len(a) == 1 and (a[0] is cur or zb(same_arg(ex, a[0], cur))))
        cur = x[4]
    failed = any(x[4] is None for x in calls(ex) if x[1] in ("process", "parse_document"))
    if r[0] == "exc":
        ex.check("%s fails only when a component fails" % what, failed, where(r))
        ex.check("the failure of %s is the library's processing error" % what, exc_is(ex, r[1], PRERR), where(r))
        return
    ex.check("the failure of a component is reported", not failed)
    ex.check("every configured stage runs", n == len(procs))
    if callable(cur):
        cur(r[1], "the result")
    else:
        ex.check("the result is the output of the last stage", r[1] is cur or isinstance(r[1], VOpaque) and zb(same_arg(ex, r[1], cur)))


@unit("ProcessingPipeline.process_document", "B01")
def doc_unit(ex):
    def thunk():
        o, init, procs = any_pipe(ex)
        path = ex.fresh("file_path", PathS) if ex.choose(2) else ex.fresh("file_name", Str)
        pn = VOpt(ex.fresh("name_none", B), ex.fresh("parser_name", Str))
        r = call(ex, o, "process_document", path, pn)
        if not init:
            ex.check("an uninitialized pipeline refuses documents", r[0] == "exc" and exc_is(ex, r[1], PRERR), where(r))
            ex.check("a refused document reaches no component", not calls(ex))
            reached(ex)
            return
        ps = [x for x in calls(ex) if x[1] == "parse_document"]
        ex.check("the document is parsed exactly once", len(ps) == 1 and ps[0][0] == "registry")
        if len(ps) != 1:
            return
        ex.check("parsing comes first", calls(ex)[0] is ps[0])
        d = bind(("file_path", "parser_name"), ps[0][2], ps[0][3])
        ex.check("the parser gets the path and the requested parser name", z3.And(zb(same_path(ex, d.get("file_path"), path)), zb(same_arg(ex, d.get("parser_name"), pn))))
        if ps[0][4] is None:
            ex.check("nothing is processed after a failed parse", not [x for x in calls(ex) if x[1] == "process"])
        chain(ex, o, procs, "process_document", r, ps[0][4])
        reached(ex)
    ex.explore(thunk, "process_document")


def same_path(ex, a, b):
    if a is None:
        return False
    a = ex.unopt(a)
    if is_sort(b, Str) and is_sort(a, PathS):
        return a == ex.call_lib("pathlib.Path", [b], {}, None)
    if is_sort(a, Str) and is_sort(b, PathS):
        return a == ex.to_str(b)
    return same_arg(ex, a, b)


@unit("ProcessingPipeline.process_text", "B01")
def text_unit(ex):
    def thunk():
        o, init, procs = any_pipe(ex)
        text = docarg(ex)
        md = arg_meta(ex)
        cm = content_meta(ex, md)
        r = call(ex, o, "process_text", text, md)
        if not init:
            ex.check("an uninitialized pipeline refuses text", r[0] == "exc" and exc_is(ex, r[1], PRERR), where(r))
            ex.check("refused text reaches no component", not calls(ex))
            reached(ex)
            return

        def first(a, what):
            if not isinstance(a, VDict):
                ex.check("%s is the document of the text" % what, False)
                return
            ex.check("%s has exactly the given text" % what, zb(ex.dict_has(a, "text")))
            ex.check("%s has the given text" % what, zb(ex.eq(ex.dict_get(a, "text"), text)))
            m = ex.dict_get(a, "metadata")
            given = ex.unopt(m) if m is not None else None
            e = F("meta_nonempty", MetaV, B)
            ex.check("%s has the given metadata" % what, IMP(z3.And(cm != NOMETA, e(cm)), content_meta(ex, given) == cm))
        chain(ex, o, procs, "process_text", r, first)
        reached(ex)
    ex.explore(thunk, "process_text")


DOCRES = lambda p: F("document_result", PathS, Obj)(p)
DOCFAIL = lambda p: F("document_fails", PathS, B)(p)


def path_term(ex, p):
    p = ex.unopt(p)
    return p if is_sort(p, PathS) else ex.call_lib("pathlib.Path", [p], {}, None)


@unit("ProcessingPipeline.batch_process_documents", "B01")
def batch_unit(ex):
    def pd(e, obj, args, kw, node):
        """What the process_document unit proves: an answer that depends on the document, or an error; nothing else changes."""
        if e.pure:
            raise NeedFork()
        p = path_term(e, args[0] if args else kw["file_path"])
        if e.branch(DOCFAIL(p)):
            raise PyRaise(VExc(e.repo.cls(PRERR), ("failed",)))
        return VOpaque(DOCRES(p), "answer")

    def thunk():
        o, init, procs = any_pipe(ex)
        ex.doc_kinds = ("answer",)
        ex.contracts[PIPE + ".process_document"] = pd
        t = TPath if ex.choose(2) else TStr
        l = ex.havoc_value(TList(t), "file_paths")
        st0 = ex.lst(l)
        n, at = zi(st0[1]), st0[2]
        pt = lambda j: path_term(ex, at(j))
        name = lambda j: at(j) if t == TStr else ex.to_str(at(j))

        def good(x, j):
            """Is x the result of document j?"""
            has = F("doc_has", Obj, Str, B)
            err = z3.And(has(x, lit("error")), has(x, lit("file_path")), F("doc_file_path_Str", Obj, Str)(x) == name(j))
            return z3.If(DOCFAIL(pt(j)), err, x == DOCRES(pt(j)))

        def pool(L):
            if L.i is None:
                return
            j = z3.Int("j!bp")
            for nm, st, _ in ex.typed_lists(L):
                if isinstance(st[3], TObj):
                    yield nm + ":one", st[1] == L.i
                    yield nm + ":good", forall(j, IMP(z3.And(0 <= j, j < st[1]), good(st[2](j), j)), st[2](j))
        ex.loop_pools = [pool]
        r = call(ex, o, "batch_process_documents", l)
        if not init:
            ex.check("an uninitialized pipeline refuses documents", r[0] == "exc" and exc_is(ex, r[1], PRERR), where(r))
            reached(ex)
            return
        if r[0] == "exc":
            unexpected(ex, r)
        res = r[1]
        if not isinstance(res, VList):
            raise Unsupported("result of batch_process_documents")
        s = ex.lst(res)
        ex.check("one result per document", zi(ex.list_len(res)) == n)
        if s[0] == "c":
            if s[1]:
                raise Unsupported("result of batch_process_documents")
            reached(ex)
            return
        if not isinstance(s[3], TObj):
            raise Unsupported("result of batch_process_documents")
        j = ex.fresh("j", I)
        ex.check("the j-th result is the j-th document's, or an error naming it", IMP(z3.And(0 <= j, j < n), good(s[2](j), j)))
        reached(ex)
    ex.explore(thunk, "batch_process_documents")


@unit("ProcessingPipeline.initialize", "B01")
def init_unit(ex):
    def thunk():
        sub = {n: ex.choose(2) == 1 for n, _ in STAGES}
        vals = {n: VOpaque(ex.fresh("conf_" + n, Obj), "PyAny") for n, _ in STAGES}
        pc = VConf({n: (sub[n], vals[n]) for n, _ in STAGES}, types={})
        pconf = VOpaque(ex.fresh("conf_parsers", Obj), "PyAny")
        conf = VConf({"parsers": (True, pconf), "processors": (True, pc)}, types={})
        o = pipe_setup(ex, conf)
        made = []

        def maker(nm):
            def new(e, ci, args, kw, node):
                if e.pure:
                    raise NeedFork()
                if e.choose(2):
                    raise PyRaise(VExc("Exception", ("constructor",)))
                c = comp(e, nm)
                e.set(ex.log, "made", ex.log.d.get("made", ()) + ((nm, c, args[0] if args else kw.get("config")),))
                return c
            return new
        for n, q in STAGES:
            ex.contracts[q] = maker(n)
        ex.contracts["valori.parsers.registry.ParserRegistry"] = maker("registry")
        r = call(ex, o, "initialize")
        made = ex.log.d.get("made", ())
        log = calls(ex)
        if r[0] == "exc":
            ex.check("a failed initialization is reported with the library's error", exc_is(ex, r[1], PRERR), where(r))
            ex.check("a pipeline that failed to initialize is not usable", NOT(zb(ex.truth(o.d["_initialized"]))))
            want = ["registry"] + [n for n, _ in STAGES if sub[n]]
            ex.check("initialization fails only when a component fails", any(x[4] is None for x in log) or len(made) < len(want), where(r))
            reached(ex)
            return
        want = [n for n, _ in STAGES if sub[n]]
        ps = o.d["processors"]
        if not isinstance(ps, VList) or ex.lst(ps)[0] != "c":
            raise Unsupported("processor list")
        have = [p.d.get("$name") if isinstance(p, VObj) else None for p in ex.lst(ps)[1]]
        ex.check("the configured processors are there, in the order clean, chunk, embed", have == want, str(have))
        ex.check("every component is initialized once", sorted(x[0] for x in log) == sorted(want + ["registry"]) and all(x[1] == "initialize" and x[4] is not None for x in log))
        reg = o.d["parser_registry"]
        ex.check("documents go to the configured registry", isinstance(reg, VObj) and reg.d.get("$name") == "registry")
        for nm, c, a in made:
            if nm == "registry":
                ok = isinstance(a, (VDict, VConf)) and (ex.dict_has(a, "parsers") if isinstance(a, VDict) else False)
                ex.check("the registry gets the configured parsers", ok is True and zb(same_arg(ex, ex.dict_get(a, "parsers"), pconf)))
            else:
                ex.check("each processor gets its own configuration", isinstance(a, VOpaque) and zb(same_arg(ex, a, vals[nm])))
        ex.check("the pipeline is initialized afterwards", zb(ex.truth(o.d["_initialized"])))
        reached(ex)
    ex.explore(thunk, "initialize")


@unit("ProcessingPipeline.close", "B01")
def close_unit(ex):
    def thunk():
        o, init, procs = any_pipe(ex)
        r = call(ex, o, "close")
        if r[0] == "exc":
            ex.check("close fails only when a component fails", any(x[4] is None for x in calls(ex)), where(r))
            reached(ex)
            return
        ex.check("a closed pipeline is not initialized", NOT(zb(ex.truth(o.d["_initialized"]))))
        ps = o.d["processors"]
        ex.check("a closed pipeline has no processors", isinstance(ps, VList) and ex.list_len(ps) == 0)
        reached(ex)
    ex.explore(thunk, "close")
