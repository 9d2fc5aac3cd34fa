"""EmbeddingProcessor (E01)."""
from .comp import *

EMB = "valori.processors.embedding.EmbeddingProcessor"
PRERR = "valori.exceptions.ProcessingError"
ECONF = {"model_name": TStr, "model_type": TStr, "batch_size": TInt, "max_length": TInt, "cache_embeddings": TBool, "normalize_embeddings": TBool, "device": TStr}
ENC = lambda t: F("model_encode", Str, Arr)(t)
TCACHE = TDict(TStr, TArr)
TCH = TObj("chunkdoc")
CHAS = lambda c: F("chunk_has_text", Obj, B)(c)
CTEXT = lambda c: F("chunk_text", Obj, Str)(c)


def enc_facts(ex, t):
    c = ENC(t)
    ex.fact(adim(c, 0) >= 1)
    ex.fact(anorm(c) > 0)
    return c


def model_attr(ex, o, name, node):
    """The embedding model: a function of the text (never a zero vector), or a failure."""
    def run(e, args, kw, n):
        if name != "encode":
            raise Unsupported("model method " + name)
        if e.pure:
            raise NeedFork()
        t = e.unopt(args[0])
        if e.choose(2):
            raise PyRaise(VExc("Exception", ("model",)))
        if isinstance(t, VList) and getattr(e, "enc_dim", None) is not None:
            s = e.sym_list(e.lst(t), TStr)
            return VArr([s[1], e.enc_dim], lambda i, j: at1(ENC(s[2](zi(i))), zi(j)), "f", None, lambda i: ENC(s[2](zi(i))))
        if not isstr(t):
            raise Unsupported("encoding of several texts")
        c = enc_facts(e, e.S(t))
        return e.arr_from_box(c, 1)
    return VPy(run, name)


def helper(ex, obj, args, kw, node):
    if ex.pure:
        raise NeedFork()
    if ex.choose(2):
        raise PyRaise(VExc("Exception", ("model",)))
    return ex.arr_from_box(enc_facts(ex, ex.S(ex.unopt(args[0] if args else kw["text"]))), 1)


def chunk_attr(ex, v, name, node):
    if name == "get":
        def get(e, a, k, n):
            if a[0] != "text":
                raise Unsupported("chunk key")
            if e.branch(CHAS(v.term)):
                return CTEXT(v.term)
            return a[1] if len(a) > 1 else None
        return VPy(get, name)
    raise Unsupported("chunk attribute " + name)


class EmbModel:
    def __init__(self, ex, o):
        self.ex, self.o = ex, o

    def cache(self):
        c = self.o.d.get("_cache")
        if not isinstance(c, VDict):
            raise Unsupported("representation of the cache")
        return self.ex.sym_dict(c, TStr, TArr)

    def key(self, t):
        """The cache key of a text (the code's own key function)."""
        ex = self.ex
        v = z3.Const("t!key", Str)
        ex.pure.append({"vars": [v], "guards": []})
        try:
            k = ex.S(ex.call(ex.getattr(self.o, "_get_cache_key"), [v], {}))
        except NeedFork:
            raise Unsupported("cache key needs a case split")
        finally:
            ex.pure.pop()
        return z3.substitute(k, (v, t))

    def good(self, t, c):
        """c is the content of the embedding of text t."""
        ex, i = self.ex, z3.Int("i!em")
        e = ENC(t)
        nm = zb(ex.truth(self.o.d["normalize_embeddings"]))
        x = z3.If(nm, aat(e, i) / anorm(e), aat(e, i))
        st = F("strip_", Str, Str)
        blank = self.blank(t)
        return z3.If(blank, z3.And(adim(c, 0) == 384, forall(i, IMP(z3.And(0 <= i, i < 384), aat(c, i) == 0), aat(c, i))),
                     z3.And(adim(c, 0) == adim(e, 0), forall(i, IMP(z3.And(0 <= i, i < adim(e, 0)), aat(c, i) == x), aat(c, i))))

    def blank(self, t):
        """Text without a non-blank character."""
        ex = self.ex
        ex.pure.append({"vars": [], "guards": []})
        try:
            s = ex.S(ex.call(ex.getattr(t, "strip"), [], {}))
        finally:
            ex.pure.pop()
        return slen(s) == 0

    def ok(self, c, t):
        return F("is_embedding_of", Arr, Str, B)(c, t)

    def define(self, t, c):
        """Definition of the ghost predicate at one point."""
        self.ex.fact(self.ok(c, t) == self.good(t, c))

    def inv(self):
        ex = self.ex
        s = self.cache()
        t, k = z3.Const("t!ci", Str), z3.Const("k!ci", Str)
        K = lambda x: self.key(x)
        H, al = ex.st.d["Hvec"], ex.st.d["alloc"]
        yield "a cached embedding is the one of its text", forall(t, IMP(z3.Select(s[1], K(t)), self.ok(z3.Select(H, z3.Select(s[2], K(t))), t)), z3.Select(s[1], K(t)))
        r = lambda x: z3.Select(s[2], x)
        yield "cached arrays are private", forall(k, IMP(z3.Select(s[1], k), z3.And(r(k) >= 0, r(k) < al, z3.Not(client(r(k))))), z3.Select(s[1], k), r(k))

    def check(self, what):
        for nm, f in self.inv():
            self.ex.check("invariant after %s: %s" % (what, nm), f)


def aat(c, i):
    return at1(c, i)


def _unused(c, i):
    return F("aat", Arr, I, R)(c, i)


def emb_setup(ex):
    comp_setup(ex)
    ex.doc_kinds = ()
    a, b = z3.Consts("a!cc b!cc", Str)
    ex.raw_fact(forall([a, b], z3.And(F("sc_left", Str, Str, Str)(sconcat(a, b), b) == a, F("sc_right", Str, Str, Str)(sconcat(a, b), a) == b), sconcat(a, b)))
    ex.raw_fact(forall(a, F("str_decode", Obj, Str)(F("str_encode", Str, Obj)(a)) == a, F("str_encode", Str, Obj)(a)))
    o, c = build(ex, EMB, VConf(types=dict(ECONF)))
    ex.ifaces["Model"] = model_attr
    ex.ifaces["chunkdoc"] = chunk_attr
    ex.opaque_contains = lambda c, x: CHAS(c.term) if isinstance(c, VOpaque) and c.kind == "chunkdoc" and x == "text" else ex.fresh("has_key", B)
    ex.opaque_getitem = lambda v, ix, node=None: chunk_item(ex, v, ix, node)
    o.d["_model"] = VObj("Model")
    o.d["_cache"] = ex.havoc_value(TCACHE, "cache")
    o.d["_initialized"] = ex.fresh("initialized", B)
    o.d["_tokenizer"] = VPoison("tokenizer")
    for f in ("_texts_processed", "_embeddings_generated", "_cache_hits"):
        if f in o.d:
            o.d[f] = ex.fresh(f, I)
    from .storage import havoc_rest
    havoc_rest(ex, o, {"config", "_model", "_cache", "_initialized", "_tokenizer", "_texts_processed", "_embeddings_generated", "_cache_hits"} | set(ECONF))
    ci = ex.repo.cls(EMB)
    for n in ("_generate_openai_embedding", "_generate_huggingface_embedding"):
        if ci.find(n)[1] is not None:
            ex.contracts[EMB + "." + n] = helper
    mt = ex.S(o.d["model_type"])
    ex.fact(z3.Or(*[mt == lit(x) for x in ("sentence_transformers", "openai", "huggingface")]))      # established by initialize
    M = EmbModel(ex, o)
    for nm, f in M.inv():
        ex.fact(f)
    return o, M


def chunk_item(ex, v, ix, node):
    if isinstance(v, VOpaque) and v.kind == "chunkdoc" and ix == "text":
        ex.need(CHAS(v.term), "KeyError", node)
        return CTEXT(v.term)
    raise Unsupported("item of an opaque value")


@unit("EmbeddingProcessor._generate_embedding", "E01")
def gen_unit(ex):
    def thunk():
        o, M = emb_setup(ex)
        t = ex.fresh("text", Str)
        H0, al0 = ex.st.d["Hvec"], ex.st.d["alloc"]
        r = call(ex, o, "_generate_embedding", t)
        if r[0] == "exc":
            if not (r[1].cls == "Exception"):
                unexpected(ex, r)
            M.check("a failed embedding")
            reached(ex)
            return
        a = r[1]
        if not isinstance(a, VArr):
            raise Unsupported("result of _generate_embedding")
        c = content_vec(ex, a)
        s = M.cache()
        # the ghost predicate at the contents in play
        M.define(t, c)
        k = M.key(t)
        M.define(t, z3.Select(ex.st.d["Hvec"], z3.Select(s[2], k)))
        ex.check("the embedding is the (normalized) model output of the text, whatever is cached", M.good(t, c))
        rr = ex.fresh("r", I)
        ex.check("existing arrays keep their contents", IMP(z3.And(rr >= 0, rr < al0), z3.Select(ex.st.d["Hvec"], rr) == z3.Select(H0, rr)))
        if a.ref is not None:
            kk = ex.fresh("kk", Str)
            ex.check("the returned array is not the cached one", z3.And(zi(a.ref) >= al0, IMP(z3.Select(s[1], kk), z3.Select(s[2], kk) != zi(a.ref))))
        x, y = ex.fresh("x", Str), ex.fresh("y", Str)
        ex.check("different texts have different cache keys", IMP(x != y, M.key(x) != M.key(y)))
        M.check("embedding a text")
        reached(ex)
    ex.explore(thunk, "_generate_embedding")


def gen_contract(ex, obj, args, kw, node):
    if ex.pure:
        raise NeedFork()
    t = ex.S(ex.unopt(args[0] if args else kw["text"]))
    if ex.choose(2):
        raise PyRaise(VExc("Exception", ("model",)))
    M = EmbModel(ex, obj)
    ref = ex.new_ref()
    a = ex.arr_from_ref(ref)
    c = content_vec(ex, a)
    ex.fact(M.ok(c, t))
    return a


@unit("EmbeddingProcessor.process", "E01")
def process_unit(ex):
    def thunk():
        o, M = emb_setup(ex)
        ex.contracts[EMB + "._generate_embedding"] = gen_contract
        text = ex.fresh("text", Str)
        chunks = ex.havoc_value(TList(TCH), "chunks")
        other = VOpaque(ex.fresh("other", Obj), "PyAny")
        keys = {"text": (ex.fresh("has_text", B), text), "chunks": (ex.fresh("has_chunks", B), chunks), "metadata": (ex.fresh("has_meta", B), other)}
        data = VConf(dict(keys), "data", {})
        st0 = ex.lst(chunks)
        n, at = zi(st0[1]), st0[2]
        init0 = zb(ex.truth(o.d["_initialized"]))
        cnt = F("text_chunks_before", I, I)
        ex.fact(cnt(z3.IntVal(0)) == 0)
        m = z3.Int("m!ec")
        ex.fact(forall(m, IMP(z3.And(0 <= m, m < n), cnt(m + 1) == cnt(m) + z3.If(CHAS(at(m)), 1, 0)), at(m)))
        al0 = ex.st.d["alloc"]

        def pool(L):
            if L.i is None:
                return
            H, al = ex.st.d["Hvec"], ex.st.d["alloc"]
            q, j = z3.Int("q!ep"), z3.Int("j!ep")
            for nm, st, _ in ex.typed_lists(L):
                if st[3] != TArr:
                    continue
                yield nm + ":cnt", st[1] == cnt(L.i)
                w = st[2](cnt(q))
                yield nm + ":good", forall(q, IMP(z3.And(0 <= q, q < L.i, CHAS(at(q))), z3.And(0 <= cnt(q), cnt(q) < st[1], M.ok(z3.Select(H, w), CTEXT(at(q))))), at(q))
                yield nm + ":ref", forall(j, IMP(z3.And(0 <= j, j < st[1]), z3.And(st[2](j) >= al0, st[2](j) < al)), st[2](j))
            s = M.cache()
            for nm, f in M.inv():
                yield "inv:" + nm, f
        ex.loop_pools = [pool]
        r = call(ex, o, "process", data)
        for k, (has, v) in keys.items():
            h2, v2 = data.d.get(k, (None, None))
            ex.check("the caller's document is not modified (%s)" % k, h2 is has and v2 is v)
        ex.check("no entry is added to the caller's document", set(data.d) <= set(keys) or all(x in keys or data.d[x][0] is not True for x in data.d))
        s1 = ex.lst(chunks)
        ex.check("the caller's chunk list is not modified", s1 is st0 or (s1[0] == "s" and z3.And(zi(s1[1]) == n, forall(m, IMP(z3.And(0 <= m, m < n), s1[2](m) == at(m)), at(m)))))
        if not ex.branch(init0):
            ex.check("an uninitialized processor refuses documents", r[0] == "exc" and exc_is(ex, r[1], PRERR), where(r))
            reached(ex)
            return
        if r[0] == "exc":
            if r[1].cls != "Exception":
                unexpected(ex, r)
            reached(ex)
            return
        res = r[1]
        if not isinstance(res, VConf):
            raise Unsupported("result of process")
        for k, (has, v) in keys.items():
            h2, v2 = res.d.get(k, (False, None))
            ex.check("the other fields are passed through (%s)" % k, z3.And(zb(h2) == zb(has), IMP(has, v2 is v or zb(same_arg(ex, v2, v)))))
        H = ex.st.d["Hvec"]
        if "embedding" in res.d:
            e = ex.unopt(res.d["embedding"][1])
            ex.check("the document's embedding is that of its text", IMP(keys["text"][0], z3.And(zb(res.d["embedding"][0]), M.ok(content_vec(ex, e), text))))
        else:
            ex.check("a document with text gets an embedding", z3.Not(keys["text"][0]))
        hc = keys["chunks"][0]
        if "chunk_embeddings" not in res.d:
            ex.check("a document with chunks gets chunk embeddings", z3.Not(hc))
            reached(ex)
            return
        l = ex.unopt(res.d["chunk_embeddings"][1])
        if not isinstance(l, VList):
            raise Unsupported("chunk embeddings")
        st = ex.lst(l)
        ex.check("one embedding per chunk with text", IMP(hc, zi(ex.list_len(l)) == cnt(n)))
        if st[0] == "s":
            q = ex.fresh("q", I)
            w = st[2](cnt(q))
            ex.check("the i-th embedding belongs to the i-th chunk with text", IMP(z3.And(hc, 0 <= q, q < n, CHAS(at(q))), M.ok(z3.Select(H, w), CTEXT(at(q)))))
        reached(ex)
    ex.explore(thunk, "process")


@unit("EmbeddingProcessor.clear_cache", "E01")
def clear_unit(ex):
    def thunk():
        o, M = emb_setup(ex)
        r = call(ex, o, "clear_cache")
        if r[0] == "exc":
            unexpected(ex, r)
        M.check("clear_cache")
        reached(ex)
    ex.explore(thunk, "clear_cache")


@unit("EmbeddingProcessor.batch_process", "E01")
def batch_unit(ex):
    def thunk():
        o, M = emb_setup(ex)
        ex.contracts[EMB + "._generate_embedding"] = gen_contract
        texts = ex.havoc_value(TList(TStr), "texts")
        st0 = ex.lst(texts)
        n, at = zi(st0[1]), st0[2]
        bs = zi(o.d["batch_size"])
        ex.fact(bs >= 1)
        init0 = zb(ex.truth(o.d["_initialized"]))
        direct = ex.S(o.d["model_type"]) == lit("sentence_transformers")
        nm0 = zb(ex.truth(o.d["normalize_embeddings"]))
        t = z3.Const("t!bd", Str)
        D = ex.fresh("model_dim", I)
        ex.fact(forall(t, z3.And(adim(ENC(t), 0) == D, anorm(ENC(t)) > 0), ENC(t)))      # one width for all texts
        ex.enc_dim = D

        def good(tx, c):
            i = z3.Int("i!bg")
            e = ENC(tx)
            x = z3.If(nm0, aat(e, i) / anorm(e), aat(e, i))
            return z3.If(direct, z3.And(adim(c, 0) == D, forall(i, IMP(z3.And(0 <= i, i < D), aat(c, i) == x), aat(c, i))), M.ok(c, tx))

        def pool(L):
            H, al = ex.st.d["Hvec"], ex.st.d["alloc"]
            j = z3.Int("j!eb")
            for ln, st, _ in ex.typed_lists(L):
                if L.i is not None and st[3] == TArr:
                    yield ln + ":len", z3.Or(st[1] == z3.If(L.i * bs <= n, L.i * bs, n), False)
                    yield ln + ":len1", st[1] == L.i
                if st[3] == TArr:
                    w = st[2](j)
                    g = z3.And(0 <= j, j < st[1])
                    yield ln + ":good", forall(j, IMP(g, good(at(j), z3.Select(H, w))), w)
                    yield ln + ":ref", forall(j, IMP(g, z3.And(w >= 0, w < al)), w)
                    if L.i is not None and L.it is not None and is_sort(L.it.at(j), Str):
                        yield ln + ":own", forall(j, IMP(g, good(L.it.at(j), z3.Select(H, w))), w)
            for nm, f in M.inv():
                yield "inv:" + nm, f
        ex.loop_pools = [pool]
        r = call(ex, o, "batch_process", texts)
        if not ex.branch(init0):
            ex.check("an uninitialized processor refuses texts", r[0] == "exc" and exc_is(ex, r[1], PRERR), where(r))
            reached(ex)
            return
        if r[0] == "exc":
            if r[1].cls != "Exception":
                unexpected(ex, r)
            reached(ex)
            return
        l = ex.unopt(r[1])
        if not isinstance(l, VList):
            raise Unsupported("result of batch_process")
        m = ex.list_len(l)
        ex.check("one embedding per text", zi(m) == n)
        j = ex.fresh("j", I)
        ex.fact(z3.And(0 <= j, j < n))
        a = ex.list_get(l, j) if hasattr(ex, "list_get") else None
        ex.check("the i-th embedding is that of the i-th text", good(at(j), content_vec(ex, a)))
        reached(ex)
    ex.explore(thunk, "batch_process")
