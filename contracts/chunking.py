"""Chunkers (C01-C04)."""
from .comp import *

CH = "valori.processors.chunking.ChunkingProcessor"
PRERR = "valori.exceptions.ProcessingError"
PARSERS = {"text": "valori.parsers.text_parser.TextParser", "pdf": "valori.parsers.pdf_parser.PDFParser", "office": "valori.parsers.office_parser.OfficeParser"}
STRIP = lambda s: F("str_strip", Str, Str)(s)
NB = lambda t, p: F("nonblank_at", Str, I, B)(t, p)
CTEXT = lambda c: F("chunk_text", Obj, Str)(c)
CHUNKS = TObj("chunkrec")
PROVENEMPTY = None


def text_facts(ex, t):
    """Trimming yields the empty text exactly when every character is blank."""
    a, b, p = z3.Ints("a!tx b!tx p!tx")
    s = lambda x: F("str_strip", Str, Str)(substr(t, a, b))
    ex.raw_fact(slen(t) >= 0)
    ex.raw_fact(forall(p, F("mark", I, B)(p), F("mark", I, B)(p)))
    ex.raw_fact(forall(p, IMP(NB(t, p), z3.And(0 <= p, p < slen(t))), NB(t, p)))
    ex.raw_fact(forall([a, b, p], IMP(z3.And(slen(STRIP(substr(t, a, b))) == 0, a <= p, p < b), z3.Not(NB(t, p))), STRIP(substr(t, a, b)), NB(t, p)))


def build_chunker(ex, dotted=CH):
    comp_setup(ex)
    o, c = build(ex, dotted, VDict(("c", {})))
    return o


def spec_conf(ex, o, parser=False):
    """Configuration as an accepted one: 0 <= overlap < size."""
    S, O = ex.fresh("chunk_size", I), ex.fresh("chunk_overlap", I)
    ex.fact(z3.And(0 <= O, O < S))
    o.d["chunk_size"], o.d["chunk_overlap"] = S, O
    return S, O


def chunker(ex, init=True):
    o = build_chunker(ex)
    S, O = spec_conf(ex, o)
    o.d["min_chunk_size"], o.d["max_chunk_size"] = ex.fresh("min_chunk_size", I), ex.fresh("max_chunk_size", I)
    ex.fact(o.d["min_chunk_size"] >= 0)
    o.d["strategy"] = ex.fresh("strategy", Str)
    o.d["separators"] = ex.havoc_value(TList(TStr), "separators")
    o.d["_initialized"] = init
    for f in ("_chunks_created", "_total_characters_processed"):
        if f in o.d:
            o.d[f] = ex.fresh(f, I)
    from .storage import havoc_rest
    havoc_rest(ex, o, set(o.d))
    return o, S, O


def field(t, x, name):
    """Field of a boxed chunk record, or None."""
    if not isinstance(t, TRec) or name not in t.fields:
        return None
    return t.dt().accessor(0, list(t.fields).index(name))(x)


def rec_list(ex, v, what):
    if not isinstance(v, VList):
        ex.check("%s gives a list of chunks" % what, False)
        raise PathEnd()
    s = ex.lst(v)
    if s[0] == "c":
        if not s[1]:
            return 0, None, None
        s = ex.sym_list(s)
    return s[1], s[2], s[3]


def covered(st, p):
    """Some chunk of the list spans position p (mark: instantiation marker)."""
    m, at, t = zi(st[1]), st[2], st[3]
    mark = F("mark", I, B)
    j = z3.Int("j!cov")
    has = lambda q: z3.And(0 <= q, q < m, field(t, at(q), "start_pos") <= p, p < field(t, at(q), "end_pos"))
    return z3.Or(z3.And(mark(m - 1), has(m - 1)), z3.Not(forall(j, IMP(mark(j), z3.Not(has(j))), mark(j))))


def fixed_pool(ex, T, S, p):
    def pool(L):
        n = slen(T)
        ints = [(nm, zi(v)) for nm, v, _ in ex.ints_of(L)]
        for nm, v in ints:
            yield nm + ":<=n", v <= n
        for nm, st, _ in ex.typed_lists(L):
            t = st[3]
            if not (isinstance(t, TRec) and {"text", "start_pos", "end_pos", "id"} <= set(t.fields)):
                continue
            m, at = zi(st[1]), st[2]
            j, k = z3.Int("j!fx"), z3.Int("k!fx")
            f = lambda nme, q: field(t, at(q), nme)
            s, e = f("start_pos", j), f("end_pos", j)
            rng = z3.And(0 <= j, j < m)
            yield nm + ":pos", forall(j, IMP(rng, z3.And(0 <= s, s < e, e <= n, e - s <= S)), s)
            yield nm + ":pos.", forall(j, IMP(rng, z3.And(0 <= s, s < e, e <= n, e - s <= S)), at(j))
            yield nm + ":text", forall(j, IMP(rng, z3.And(f("text", j) == STRIP(substr(T, s, e)), slen(f("text", j)) > 0)), at(j))
            yield nm + ":id", forall(j, IMP(rng, f("id", j) == j), at(j))
            if "length" in t.fields:
                yield nm + ":length", forall(j, IMP(rng, f("length", j) == slen(f("text", j))), at(j))
            yield nm + ":open", forall(j, IMP(rng, e < n), at(j))
            yield nm + ":incr", forall([j, k], IMP(z3.And(0 <= j, j < k, k < m), s < f("start_pos", k)), at(j), at(k))
            for vn, v in ints:
                yield nm + ":s<" + vn, forall(j, IMP(rng, s < v), at(j))
                yield nm + ":e<=" + vn, forall(j, IMP(rng, e <= v), at(j))
                yield nm + ":cov" + vn, IMP(z3.And(NB(T, p), p < v), covered(st, p))
    return pool


def check_fixed(ex, v, T, S, p, what, length=False):
    n = slen(T)
    m, at, t = rec_list(ex, v, what)
    m = zi(m)
    if at is None:
        ex.check("%s: every non-blank character lies in a chunk" % what, z3.Not(z3.And(NB(T, p), 0 <= p, p < n)))
        return
    if not isinstance(t, TRec):
        raise Unsupported("chunks of type %s" % t)
    for k in ("text", "start_pos", "end_pos", "id") + (("length",) if length else ()):
        if k not in t.fields:
            ex.check("%s: chunks have the field %s" % (what, k), m == 0)
            return
    j, k = ex.fresh("j", I), ex.fresh("k", I)
    f = lambda nme, q: field(t, at(q), nme)
    s, e, x = f("start_pos", j), f("end_pos", j), f("text", j)
    rng = z3.And(0 <= j, j < m)
    ex.check("%s: a chunk is the trimmed text between its reported positions" % what, IMP(rng, z3.And(0 <= s, s < e, e <= n, x == STRIP(substr(T, s, e)))))
    ex.check("%s: no chunk is empty" % what, IMP(rng, slen(x) > 0))
    ex.check("%s: a chunk spans at most the configured size" % what, IMP(rng, e - s <= S))
    ex.check("%s: chunks are numbered consecutively" % what, IMP(rng, f("id", j) == j))
    ex.check("%s: chunk starts strictly increase" % what, IMP(z3.And(rng, 0 <= k, j < k, k < m), s < f("start_pos", k)))
    ex.check("%s: nothing follows the chunk that reaches the end of the text" % what, IMP(z3.And(0 <= j, j < m - 1), e < n))
    ex.check("%s: every non-blank character lies in a chunk" % what,
             IMP(z3.And(NB(T, p), 0 <= p, p < n), covered((None, m, at, t), p)))
    if length:
        ex.check("%s: reported lengths are true" % what, IMP(rng, f("length", j) == slen(x)))


@unit("ChunkingProcessor._fixed_size_chunking", "C01")
def fixed_unit(ex):
    ex.require_term = True

    def thunk():
        o, S, O = chunker(ex)
        T, p = ex.fresh("text", Str), ex.fresh("p", I)
        text_facts(ex, T)
        ex.fact(p >= 0)
        ex.loop_pools = [fixed_pool(ex, T, S, p)]
        r = call(ex, o, "_fixed_size_chunking", T)
        if r[0] == "exc":
            unexpected(ex, r)
        check_fixed(ex, r[1], T, S, p, "fixed size chunking", length=True)
        reached(ex)
    ex.explore(thunk, "_fixed_size_chunking")


def parser_unit(kind):
    @unit("%s._create_chunks" % PARSERS[kind].rsplit(".", 1)[1], "C01")
    def u(ex, kind=kind):
        ex.require_term = True

        def thunk():
            o = build_chunker(ex, PARSERS[kind])
            S, O = spec_conf(ex, o)
            from .storage import havoc_rest
            havoc_rest(ex, o, set(o.d))
            T, p = ex.fresh("text", Str), ex.fresh("p", I)
            text_facts(ex, T)
            ex.fact(p >= 0)
            ex.loop_pools = [fixed_pool(ex, T, S, p)]
            info = TRec(page_number=TInt, text_length=TInt)
            args = [T] + ([] if kind == "text" else [ex.havoc_value(TList(info), "pages")])
            r = call(ex, o, "_create_chunks", *args)
            if r[0] == "exc":
                unexpected(ex, r)
            check_fixed(ex, r[1], T, S, p, "chunking")
            reached(ex)
        ex.explore(thunk, "_create_chunks")


for _k in PARSERS:
    parser_unit(_k)


# ------------------------------------------------------------------ sliding windows
@unit("ChunkingProcessor._sliding_window_chunking", "C02")
def sliding_unit(ex):
    ex.require_term = True

    def thunk():
        o, S, O = chunker(ex)
        T = ex.fresh("text", Str)
        text_facts(ex, T)
        n, W = slen(T), S - O
        q, j = z3.Int("q!sw"), z3.Int("j!sw")
        mn = o.d["min_chunk_size"]
        beg = lambda x: x * W
        end = lambda x: z3.If(beg(x) + S < n, beg(x) + S, n)
        win = lambda x: STRIP(substr(T, beg(x), end(x)))
        ok = lambda x: slen(win(x)) >= mn
        cnt = F("windows_before", I, I)
        ex.fact(cnt(z3.IntVal(0)) == 0)
        seen = {}

        def pool(L):
            if L.i is None or L.it.kind != "range":
                return
            seen["it"] = L.it
            ex.fact(cnt(L.i + 1) == cnt(L.i) + z3.If(ok(L.i), 1, 0))
            for nm, st, _ in ex.typed_lists(L):
                t = st[3]
                if not (isinstance(t, TRec) and {"text", "start_pos", "end_pos", "id", "length"} <= set(t.fields)):
                    continue
                m, at = zi(st[1]), st[2]
                yield nm + ":cnt", m == cnt(L.i)
                yield nm + ":mono", forall(q, IMP(z3.And(0 <= q, q < L.i, ok_(q)), z3.And(0 <= cnt(q), cnt(q) < m)), cnt(q))
                c = cnt(q)
                yield nm + ":win", forall(q, IMP(z3.And(0 <= q, q < L.i, ok_(q)), chunk_is(t, at(c), q)), cnt(q))
        okp = F("window_long_enough", I, B)
        ok_ = okp
        wb, we = F("window_start", I, I), F("window_end", I, I)
        ex.raw_fact(forall(q, z3.And(okp(q) == ok(q), wb(q) == beg(q), we(q) == end(q)), cnt(q)))

        def chunk_is(t, x, qq):
            f = lambda nme: field(t, x, nme)
            return z3.And(f("start_pos") == wb(qq), f("end_pos") == we(qq), f("text") == STRIP(substr(T, wb(qq), we(qq))), f("length") == slen(f("text")), f("id") == cnt(qq))
        ex.loop_pools = [pool]
        r = call(ex, o, "_sliding_window_chunking", T)
        if r[0] == "exc":
            unexpected(ex, r)
        m, at, t = rec_list(ex, r[1], "sliding windows")
        if "it" not in seen:
            raise Unsupported("sliding window loop not over a range")
        N = zi(seen["it"].len)
        ex.check("one window per multiple of the step inside the text", z3.If(n > 0, z3.And(N >= 1, (N - 1) * W < n, N * W >= n), N == 0))
        ex.check("exactly the windows of the minimum length are emitted", zi(m) == cnt(N))
        qq = ex.fresh("q", I)
        if at is None:
            ex.check("no window is left out", z3.Not(z3.And(0 <= qq, qq < N, cnt(qq) >= 0, okp(qq))))
        else:
            ex.check("each emitted window has its true position, text, number and length",
                     IMP(z3.And(0 <= qq, qq < N, okp(qq)), z3.And(0 <= cnt(qq), cnt(qq) < zi(m), chunk_is(t, at(cnt(qq)), qq))))
        reached(ex)
    ex.explore(thunk, "_sliding_window_chunking")


@unit("ChunkingProcessor.initialize", "C02 C03")
def init_unit(ex):
    def thunk():
        o = build_chunker(ex)
        S, O = ex.fresh("chunk_size", I), ex.fresh("chunk_overlap", I)
        o.d["chunk_size"], o.d["chunk_overlap"] = S, O
        r = call(ex, o, "initialize")
        if r[0] == "exc":
            if not exc_is(ex, r[1], PRERR):
                unexpected(ex, r)
            ex.check("a configuration with 0 <= overlap < size is accepted", z3.Not(z3.And(0 <= O, O < S)))
            ex.check("a refused chunker stays uninitialized", z3.Not(zb(ex.truth(o.d["_initialized"]))))
        else:
            ex.check("only configurations with overlap < size are accepted", z3.And(S > 0, O < S))
            ex.check("the chunker is initialized", zb(ex.truth(o.d["_initialized"])))
            ex.check("initialization keeps the configuration", z3.And(zi(o.d["chunk_size"]) == S, zi(o.d["chunk_overlap"]) == O))
        reached(ex)
    ex.explore(thunk, "initialize")


# ------------------------------------------------------------------ process
STRATEGIES = {"fixed_size": "_fixed_size_chunking", "semantic": "_semantic_chunking", "sliding_window": "_sliding_window_chunking"}


@unit("ChunkingProcessor.process", "C03")
def process_unit(ex):
    ex.filter_loops = True

    def thunk():
        o, S, O = chunker(ex)
        o.d["_initialized"] = ex.fresh("initialized", B)
        init0 = zb(o.d["_initialized"])
        made = {}

        def strategy(name):
            def h(e, obj, args, kw, node):
                if e.pure:
                    raise NeedFork()
                made["name"] = name
                made["arg"] = args[0] if args else list(kw.values())[0]
                l = e.havoc_value(TList(CHUNKS), "chunks")
                made["list"], made["st"] = l, e.lst(l)
                n, at = zi(made["st"][1]), made["st"][2]
                m = z3.Int("m!cp")
                e.raw_fact(forall(m, IMP(z3.And(0 <= m, m < n), cnt(m + 1) == cnt(m) + z3.If(keep(at(m)), 1, 0)), at(m)))
                return l
            return h
        mn, mx = o.d["min_chunk_size"], o.d["max_chunk_size"]
        keep = lambda c: z3.And(mn <= slen(CTEXT(c)), slen(CTEXT(c)) <= mx)
        cnt = F("kept_before", I, I)
        ex.fact(cnt(z3.IntVal(0)) == 0)
        for k, v in STRATEGIES.items():
            ex.contracts[CH + "." + v] = strategy(k)

        def item(v, ix, node=None):
            if isinstance(v, VOpaque) and v.kind == "chunkrec" and isinstance(ix, str) and ix == "text":
                return CTEXT(v.term)
            raise Unsupported("item of a chunk")
        ex.opaque_getitem = item

        def pool(L):
            if L.i is None or "st" not in made:
                return
            at = made["st"][2]
            q = z3.Int("q!cp")
            for nm, st, _ in ex.typed_lists(L):
                if st[3] != CHUNKS:
                    continue
                yield nm + ":cnt", st[1] == cnt(L.i)
                yield nm + ":kept", forall(q, IMP(z3.And(0 <= q, q < L.i, keep(at(q))), z3.And(0 <= cnt(q), cnt(q) < st[1], st[2](cnt(q)) == at(q))), at(q))
        ex.loop_pools = [pool]
        text = ex.fresh("text", Str)
        other = VOpaque(ex.fresh("other", Obj), "PyAny")
        older = VOpaque(ex.fresh("oldchunks", Obj), "PyAny")
        keys = {"text": (ex.fresh("has_text", B), text), "chunks": (ex.fresh("has_chunks", B), older), "metadata": (ex.fresh("has_meta", B), other)}
        data = VConf(dict(keys), "data", {})
        strat = o.d["strategy"]
        c0 = zi(o.d["_chunks_created"]) if "_chunks_created" in o.d else None
        r = call(ex, o, "process", data)
        for k, (has, v) in keys.items():
            h2, v2 = data.d.get(k, (None, None))
            ex.check("the caller's document is not modified (%s)" % k, h2 is has and v2 is v)
        ex.check("no entry is added to the caller's document", set(data.d) <= set(keys))
        known = z3.Or(*[strat == lit(k) for k in STRATEGIES])
        good = z3.And(init0, keys["text"][0], known)
        if r[0] == "exc":
            if not exc_is(ex, r[1], PRERR):
                unexpected(ex, r)
            ex.check("a proper document is not refused", z3.Not(good))
            reached(ex)
            return
        ex.check("unknown strategies, missing text and uninitialized use are refused", good)
        ex.check("a strategy runs", "name" in made)
        if "name" not in made:
            return
        ex.check("the configured strategy runs", strat == lit(made["name"]))
        ex.check("the strategy gets the document's text", zb(same_arg(ex, made["arg"], text)))
        res = r[1]
        if not isinstance(res, VConf):
            raise Unsupported("result of process")
        for k in ("text", "metadata"):
            has, v = keys[k]
            h2, v2 = res.d.get(k, (False, None))
            ex.check("the other fields are passed through (%s)" % k, z3.And(zb(h2) == zb(has), IMP(has, v2 is v or zb(same_arg(ex, v2, v)))))
        h2, l = res.d.get("chunks", (False, None))
        l = ex.unopt(l) if l is not None else None
        if not isinstance(l, VList):
            ex.check("the result has a list of chunks", False)
            return
        st, src = ex.lst(l), made["st"]
        n, at = zi(src[1]), src[2]
        m = zi(ex.list_len(l))
        ex.check("the result has the chunks", zb(h2))
        ex.check("exactly the chunks of admitted length are returned", m == cnt(n))
        if st[0] == "s":
            q = ex.fresh("q", I)
            ex.check("the chunks are returned unchanged and in order", IMP(z3.And(0 <= q, q < n, keep(at(q))), z3.And(0 <= cnt(q), cnt(q) < m, st[2](cnt(q)) == at(q))))
        else:
            ex.check("an empty result has no admitted chunk", z3.BoolVal(len(st[1]) == 0))
        if c0 is not None:
            ex.check("the chunk counter counts them", zi(o.d["_chunks_created"]) == c0 + m)
        reached(ex)
    ex.explore(thunk, "process")


# ------------------------------------------------------------------ semantic chunks
CONT = lambda a, x: F("text_contains", Str, Str, B)(a, x)


def contain_facts(ex):
    a, b, x = z3.Consts("a!ct b!ct x!ct", Str)
    trim = F("trimmed", Str, B)
    ex.raw_fact(forall(a, CONT(a, a), CONT(a, a)))
    ex.raw_fact(forall([a, b, x], IMP(z3.Or(CONT(a, x), CONT(b, x)), CONT(sconcat(a, b), x)), CONT(sconcat(a, b), x)))
    ex.raw_fact(forall([a, x], IMP(z3.And(CONT(a, x), trim(x)), CONT(STRIP(a), x)), CONT(STRIP(a), x)))
    ex.raw_fact(forall([a, x], IMP(CONT(a, x), slen(x) <= slen(a)), CONT(a, x)))
    ex.raw_fact(forall(a, z3.And(slen(a) >= 0, slen(STRIP(a)) <= slen(a)), STRIP(a)))
    ex.raw_fact(forall(a, trim(STRIP(a)), STRIP(a)))
    p = z3.Int("p!ct")
    ex.raw_fact(forall(p, F("mark", I, B)(p), F("mark", I, B)(p)))


@unit("ChunkingProcessor._semantic_chunking", "C04")
def semantic_unit(ex):
    def thunk():
        o, S, O = chunker(ex)
        T = ex.fresh("text", Str)
        contain_facts(ex)
        parts = ex.call(ex.getattr(T, "split"), ["\n\n"], {})
        ps = ex.lst(parts)
        N, pat = zi(ps[1]), ps[2]
        P = lambda q: STRIP(pat(q))
        mark = F("mark", I, B)
        q1, q2 = ex.fresh("q1", I), ex.fresh("q2", I)
        ex.fact(z3.And(0 <= q1, q1 < q2, q2 < N, slen(P(q1)) > 0, slen(P(q2)) > 0, mark(q1), mark(q2)))
        qs, jv, kv = z3.Int("q!sm"), z3.Int("j!sm"), z3.Int("k!sm")

        def someq(x):
            return z3.Not(forall(qs, IMP(mark(qs), z3.Not(z3.And(0 <= qs, qs < N, slen(P(qs)) > 0, slen(x) <= O + slen(P(qs))))), mark(qs)))

        def bounded(x, extra=()):
            return z3.Or(slen(x) <= S + 2, *extra, someq(x))

        def text(st, j):
            return field(st[3], st[2](j), "text")

        def emitted(st, x):
            m = zi(st[1])
            h = lambda j: z3.And(0 <= j, j < m, CONT(text(st, j), x))
            return z3.Or(z3.And(mark(m - 1), h(m - 1)), z3.Not(forall(jv, IMP(mark(jv), z3.Not(h(jv))), mark(jv))))

        def ordered(st, x, y):
            m = zi(st[1])
            h = lambda j, k: z3.And(0 <= j, j <= k, k < m, CONT(text(st, j), x), CONT(text(st, k), y))
            return z3.Or(z3.And(mark(m - 1), z3.Or(h(m - 1, m - 1), z3.Not(forall(jv, IMP(mark(jv), z3.Not(h(jv, m - 1))), mark(jv))))),
                         z3.Not(forall([jv, kv], IMP(z3.And(mark(jv), mark(kv)), z3.Not(h(jv, kv))), mark(jv), mark(kv))))

        def pool(L):
            if L.i is None:
                return
            ex.fact(mark(L.i))
            strs = []
            for cell in L.info.mods:
                own = Val.registry[cell[0]]
                v = own.d.get(cell[1])
                if own is not ex.st and isinstance(cell[1], str) and isstr(v):
                    strs.append(("C%d.%s" % cell, ex.S(v)))
            for nm, v in strs:
                yield nm + ":len", bounded(v)
            for ln, st, _ in ex.typed_lists(L):
                if not (isinstance(st[3], TRec) and "text" in st[3].fields):
                    continue
                rng = z3.And(0 <= jv, jv < zi(st[1]))
                yield ln + ":nonempty", forall(jv, IMP(rng, z3.And(slen(text(st, jv)) > 0, text(st, jv) == STRIP(text(st, jv)))), st[2](jv))
                yield ln + ":len", forall(jv, IMP(rng, bounded(text(st, jv))), st[2](jv))
                for nm, v in strs:
                    for a, q in (("1", q1), ("2", q2)):
                        yield "%s:%s:in%s" % (ln, nm, a), IMP(q < L.i, z3.Or(CONT(v, P(q)), emitted(st, P(q))))
                    yield "%s:%s:order" % (ln, nm), IMP(q2 < L.i, z3.Or(CONT(v, P(q2)), ordered(st, P(q1), P(q2))))
        ex.loop_pools = [pool]
        r = call(ex, o, "_semantic_chunking", T)
        if r[0] == "exc":
            unexpected(ex, r)
        m, at, t = rec_list(ex, r[1], "semantic chunking")
        if at is None:
            ex.check("every non-blank paragraph lies completely in a chunk", False)
            return
        if not isinstance(t, TRec) or "text" not in t.fields:
            raise Unsupported("chunks of type %s" % t)
        st = (None, m, at, t)
        ex.check("every non-blank paragraph lies completely in a chunk", z3.And(emitted(st, P(q1)), emitted(st, P(q2))))
        ex.check("paragraphs appear in order", ordered(st, P(q1), P(q2)))
        j = ex.fresh("j", I)
        ex.check("a chunk exceeds the size (and one separator) only by one paragraph behind the overlap", IMP(z3.And(0 <= j, j < zi(m)), bounded(text(st, j))))
        reached(ex)
    ex.explore(thunk, "_semantic_chunking")
