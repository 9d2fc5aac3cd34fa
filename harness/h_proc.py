"""R01, B01, E01 on the real code."""
import copy
import hashlib
import os
import sys
import types
from pathlib import Path
import numpy as np
from core import case, expect, Fail
from valori.exceptions import ParsingError, ProcessingError, ValoriError
from valori.parsers.base import DocumentParser
from valori.parsers.registry import ParserRegistry


# ------------------------------------------------------------ embedding model stand-in
class FakeST:
    fail_on = None

    def __init__(self, *a, **k):
        pass

    def to(self, *a, **k):
        return self

    def one(self, t):
        if FakeST.fail_on and FakeST.fail_on in t:
            raise RuntimeError("model failed")
        h = hashlib.sha256(t.encode("utf8", "surrogatepass")).digest()
        return np.frombuffer(h[:16], dtype=np.uint8).astype(np.float32) + 1

    def encode(self, texts, *a, **k):
        if isinstance(texts, str):
            return self.one(texts)
        return np.array([self.one(t) for t in texts])


_m = types.ModuleType("sentence_transformers")
_m.SentenceTransformer = FakeST
sys.modules["sentence_transformers"] = _m
WORDS = ["alpha", "beta", "x", "", " ", "\n", "a b", "a", "ab", "the quick brown fox", "ünï", "a_b", "_", "b_a", "<b>bold</b>", "&amp;", "1. item"]


def text(rng, n=6):
    return rng.choice(["", " ", ""]) + rng.choice([" ", "_", "\n\n", ""]).join(rng.choice(WORDS) for _ in range(rng.randrange(n)))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def emb(**kw):
    from valori.processors.embedding import EmbeddingProcessor
    p = EmbeddingProcessor(dict({"model_type": "sentence_transformers"}, **kw))
    p.initialize()
    return p


def embed_text(p, t):
    return p.process({"text": t})["embedding"]


@case("E01", weight=2)
def embed_cache(c):
    rng = c.rng
    FakeST.fail_on = rng.choice([None, None, "fox"])
    cfg = {"normalize_embeddings": rng.random() < .5}
    p = emb(cache_embeddings=True, **cfg)
    for _ in range(rng.choice([3, 12])):
        op = rng.random()
        if op < .1:
            p.clear_cache()
            continue
        doc = {}
        if rng.random() < .8:
            doc["text"] = text(rng, 3)
        if rng.random() < .7:
            doc["chunks"] = [dict({"text": text(rng, 3)} if rng.random() < .8 else {}, id=i) for i in range(rng.randrange(4))]
        if rng.random() < .5:
            doc["metadata"] = {"k": 1}
        before = copy.deepcopy(doc)
        c.log("process", doc)
        fresh = emb(cache_embeddings=False, **cfg)
        try:
            want = fresh.process(copy.deepcopy(doc))
        except RuntimeError:
            want = None
        try:
            got = p.process(doc)
        except RuntimeError:
            got = None
        expect(same(doc, before), "the caller's document is modified", before=before, after=doc)
        expect((got is None) == (want is None), "caching changes whether embedding fails")
        if got is None:
            continue
        expect(same(got, want), "cached embedding differs from the uncached one", got=got, want=want)
        for k in doc:
            expect(same(got[k], before[k]), "field %s is not passed through" % k)
        if "text" in doc:
            e = fresh.process({"text": doc["text"]})["embedding"]
            expect(same(got["embedding"], e), "embedding of the text")
            if doc["text"].strip():
                w = FakeST().one(doc["text"])
                w = w / np.linalg.norm(w) if cfg["normalize_embeddings"] else w
                expect(same(np.asarray(got["embedding"], dtype=np.float32), w), "the embedding is not the model's output of the text")
        if "chunks" in doc:
            ts = [x["text"] for x in doc["chunks"] if "text" in x]
            ce = got["chunk_embeddings"]
            expect(len(ce) == len(ts), "number of chunk embeddings", n=len(ce), want=len(ts))
            for t, e in zip(ts, ce):
                expect(same(e, embed_text(fresh, t)), "chunk embedding belongs to another chunk", text=t)
        if rng.random() < .3:
            for a in [got.get("embedding")] + list(got.get("chunk_embeddings", [])):
                if a is not None:
                    a += 1


@case("E01")
def embed_batch(c):
    rng = c.rng
    FakeST.fail_on = None
    p = emb(cache_embeddings=rng.random() < .5, batch_size=rng.choice([1, 2, 3, 32]), normalize_embeddings=rng.random() < .5)
    ts = [t for t in (text(rng) for _ in range(rng.randrange(8))) if t.strip()]
    c.log(ts)
    out = p.batch_process(list(ts))
    expect(len(out) == len(ts), "one embedding per text")
    for t, e in zip(ts, out):
        expect(same(np.asarray(e), embed_text(p, t)), "batch embedding differs from the single one", text=t)


@case("E01")
def embed_uninit(c):
    from valori.processors.embedding import EmbeddingProcessor
    p = EmbeddingProcessor({})
    try:
        p.process({"text": "a"})
    except ProcessingError:
        return
    raise Fail("an uninitialized processor embeds")


# ------------------------------------------------------------ registry
class FP(DocumentParser):
    def __init__(self, config):
        super().__init__(config)
        self.exts, self.bad = config["exts"], config.get("bad", "")
        if "ctor" in self.bad:
            raise RuntimeError("ctor")

    def initialize(self):
        if "init" in self.bad:
            raise RuntimeError("init")
        self._initialized = True

    def can_parse(self, p):
        return Path(p).suffix in self.exts

    def parse(self, p):
        if "parse" in self.bad:
            raise RuntimeError("parse")
        return {"by": id(self), "path": str(p)}

    def get_supported_formats(self):
        return list(self.exts)


@case("R01")
def registry_pick(c):
    rng = c.rng
    r = ParserRegistry({})
    r.initialize()
    prio0 = {"text": 1, "pdf": 2, "office": 3, "docling": 4}
    model = {}
    names = ["text", "pdf", "office", "docling", "u1", "u2", "u3", ""]
    exts = [".a", ".b", ".txt", ""]
    if rng.random() < .3 and hasattr(r, "parser_priorities"):
        for n in rng.sample(names, 2):
            prio0[n] = rng.choice([0, 2, 3, -1])
            r.parser_priorities[n] = prio0[n]
    for _ in range(rng.choice([4, 15])):
        op = rng.random()
        if op < .35:
            n = rng.choice(names)
            cfg = {"exts": rng.sample(exts, rng.randrange(3)), "bad": rng.choice(["", "", "", "ctor", "init", "parse"])}
            c.log("add", n, cfg)
            try:
                r.add_parser(n, FP, cfg)
                ok = True
            except ParsingError:
                ok = False
            expect(ok == (cfg["bad"] not in ("ctor", "init")), "add_parser outcome", cfg=cfg)
            if ok:
                model[n] = r.parsers[n]
                expect(isinstance(model[n], FP) and model[n].exts == cfg["exts"], "the added parser is not registered")
        elif op < .45:
            n = rng.choice(names)
            c.log("remove", n)
            r.remove_parser(n)
            model.pop(n, None)
        else:
            f = "doc" + rng.choice(exts)
            f = rng.choice([f, Path(f)])
            pn = rng.choice([None, None, None, "", rng.choice(names)])
            c.log("get", f, pn)
            sup = [(n, p) for n, p in model.items() if p.can_parse(f)]
            if pn:
                want = model.get(pn)
            else:
                want = None
                for n, p in sup:
                    if want is None or prio0.get(n, 0) > best:
                        want, best = p, prio0.get(n, 0)
            try:
                got = r.get_parser(f, pn)
            except ParsingError:
                got = None
            expect(got is want, "wrong parser picked", got=getattr(got, "exts", None), want=getattr(want, "exts", None), order=list(model))
            try:
                d = r.parse_document(f, pn)
            except ParsingError:
                d = ParsingError
            except RuntimeError:
                d = RuntimeError
            if want is None:
                expect(d is ParsingError, "a document without parser is parsed")
            elif "parse" in want.bad:
                expect(d is RuntimeError, "failure of the parser", d=d)
            else:
                expect(isinstance(d, dict) and d["by"] == id(want) and d["path"] == str(f), "document is not parsed by the picked parser", d=d)
        expect(list(r.parsers) == list(model) and all(r.parsers[n] is model[n] for n in model), "another parser is affected", have=list(r.parsers), want=list(model))


@case("R01")
def registry_init(c):
    rng = c.rng
    r = ParserRegistry({"parsers": {n: {} for n in rng.sample(["text", "pdf", "office", "nope"], rng.randrange(5))}})
    try:
        r.get_parser("a.txt")
        raise Fail("an uninitialized registry picks a parser")
    except ParsingError:
        pass
    r.initialize()
    f = rng.choice(["a.txt", "a.pdf", "a.docx", "a.zzz", "a.MD", "a"])
    prio = {"text": 1, "pdf": 2, "office": 3, "docling": 4}
    sup = sorted(((prio[n], n) for n, p in r.parsers.items() if p.can_parse(f)), reverse=True)
    try:
        got = r.get_parser(f)
    except ParsingError:
        got = None
    expect(got is (r.parsers[sup[0][1]] if sup else None), "wrong parser picked", f=f, sup=sup)


# ------------------------------------------------------------ pipeline
def stages(cfg):
    from valori.processors.cleaning import CleaningProcessor
    from valori.processors.chunking import ChunkingProcessor
    from valori.processors.embedding import EmbeddingProcessor
    out = []
    for n, k in (("cleaning", CleaningProcessor), ("chunking", ChunkingProcessor), ("embedding", EmbeddingProcessor)):
        if n in cfg:
            p = k(cfg[n])
            p.initialize()
            out.append(p)
    return out


def chain(doc, cfg):
    for p in stages(cfg):
        doc = p.process(doc)
    return doc


def strip(d):
    return {k: v for k, v in d.items() if k != "pipeline_metadata"}


@case("B01")
def pipeline(c):
    from valori.processors.pipeline import ProcessingPipeline
    rng = c.rng
    FakeST.fail_on = rng.choice([None, "fox"])
    cfg = {}
    if rng.random() < .7:
        cfg["cleaning"] = {"lowercase": rng.random() < .5}
    if rng.random() < .7:
        cfg["chunking"] = {"chunk_size": rng.choice([10, 40]), "chunk_overlap": rng.choice([0, 5]), "min_chunk_size": rng.choice([1, 5]), "strategy": rng.choice(["fixed_size", "sliding_window", "semantic"])}
    if rng.random() < .7:
        cfg["embedding"] = {"model_type": "sentence_transformers", "cache_embeddings": rng.random() < .5}
    ks = list(cfg)
    rng.shuffle(ks)
    cfg = {k: cfg[k] for k in ks}
    p = ProcessingPipeline({"parsers": {"text": {}}, "processors": cfg})
    try:
        p.process_text("a")
        raise Fail("an uninitialized pipeline processes text")
    except ProcessingError:
        pass
    p.initialize()
    d = c.dir
    paths = []
    for i in range(rng.randrange(6)):
        f = os.path.join(d, "f%d%s" % (i, rng.choice([".txt", ".txt", ".txt", ".bin"])))
        if rng.random() < .8:
            with open(f, "w") as h:
                h.write(text(rng, 20))
        paths.append(rng.choice([f, Path(f)]))
    if paths and rng.random() < .3:
        paths.append(paths[0])
    reg = ParserRegistry({"parsers": {"text": {}}})
    reg.initialize()
    c.log(paths, cfg)

    def want(path):
        try:
            return chain(reg.parse_document(path), cfg)
        except Exception:
            return None
    res = p.batch_process_documents(list(paths))
    expect(len(res) == len(paths), "one result per document", n=len(res), want=len(paths))
    for f, r in zip(paths, res):
        w = want(f)
        if w is None:
            expect("error" in r and r.get("file_path") == str(f), "a failing document yields no error naming it", r=r)
        else:
            expect("error" not in r and same(strip(r), strip(w)), "result is not the output of the stages in order", got=strip(r), want=w)
    for f in paths[:2]:
        w = want(f)
        try:
            r = p.process_document(f, rng.choice([None, "text"]))
        except ProcessingError:
            r = None
        expect((r is None) == (w is None), "outcome of process_document")
        if r is not None:
            expect(same(strip(r), strip(w)), "result is not the output of the stages in order")
    t, md = text(rng, 20), rng.choice([None, {}, {"a": 1}])
    try:
        w = chain({"text": t, "metadata": md or {}, "structure": {"type": "raw_text"}}, cfg)
    except Exception:
        w = None
    try:
        r = p.process_text(t, md)
    except ProcessingError:
        r = None
    expect((r is None) == (w is None), "outcome of process_text")
    if r is not None:
        expect(same(strip(r), strip(w)), "text is not processed by the stages in order", got=strip(r), want=w)
    p.close()
    try:
        p.process_text("a")
        raise Fail("a closed pipeline processes text")
    except ProcessingError:
        pass
