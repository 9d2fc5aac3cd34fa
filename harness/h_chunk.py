"""C01-C04 on the real chunkers."""
import copy
import os
from core import case, expect
from valori.exceptions import ValoriError, ProcessingError
from valori.processors.chunking import ChunkingProcessor

PIECES = ["a", "bc", "Wort.", "! ", "? ", ". ", " ", "  ", "\n", "\n\n", "\n\n\n", "\t", "x" * 7, "longer words here", "\u00e9\u4e2d", ".", "\r\n", "\u00a0", "\x1f", "end."]


def text(rng, big=False):
    n = rng.choice([0, 1, 2, 5, 12, 30] + ([80] if big else []))
    k = rng.random()
    if k < .1:
        return " \n\t" * n
    if k < .2:
        return "z" * rng.randrange(0, 60)
    return "".join(rng.choice(PIECES) for _ in range(n))


def sizes(rng):
    s = rng.choice([1, 2, 3, 5, 8, 10, 13, 20, 50])
    o = rng.choice([0, 1, 2, s // 2, s - 1])
    return s, min(max(o, 0), s - 1)


def check_cover(t, chunks, size, what, length=False, cover=True, ids=True):
    expect(isinstance(chunks, list), "%s gives no list" % what)
    prev = -1
    seen = set()
    for i, c in enumerate(chunks):
        s, e = c["start_pos"], c["end_pos"]
        expect(0 <= s < e <= len(t), "%s: positions out of the text" % what, chunk=c, text=t)
        expect(c["text"] == t[s:e].strip(), "%s: chunk text is not the trimmed text between its positions" % what, chunk=c, text=t)
        expect(c["text"] != "", "%s: empty chunk" % what, chunk=c, text=t)
        expect(e - s <= size, "%s: chunk larger than the configured size" % what, chunk=c, size=size, text=t)
        if ids:
            expect(c["id"] == i, "%s: chunk numbers not consecutive" % what, chunks=chunks)
        expect(s > prev, "%s: chunk starts do not increase" % what, chunks=chunks, text=t)
        prev = s
        if i + 1 < len(chunks):
            expect(e < len(t), "%s: something follows the chunk that reaches the end" % what, chunks=chunks, text=t)
        if length:
            expect(c["length"] == len(c["text"]), "%s: wrong length" % what, chunk=c)
        seen.update(range(s, e))
    if cover:
        miss = [p for p, ch in enumerate(t) if not ch.isspace() and p not in seen]
        expect(not miss, "%s: characters in no chunk" % what, positions=miss[:10], text=t, chunks=chunks)


def separators(rng):
    if rng.random() < .5:
        return {}
    return {"separators": [rng.choice(["\n\n", "\n", ". ", " ", "x", "", ".", "ab", "! "]) for _ in range(rng.choice([0, 1, 3]))]}


@case("C01", weight=3)
def fixed(c):
    rng = c.rng
    s, o = sizes(rng)
    mn = rng.choice([0, 0, 0, 1, 2, s // 2, s, 50])
    cfg = dict(strategy="fixed_size", chunk_size=s, chunk_overlap=o, min_chunk_size=mn, max_chunk_size=10 ** 6, **separators(rng))
    p = ChunkingProcessor(cfg)
    p.initialize()
    for _ in range(3):
        t = text(rng, True)
        c.log(cfg, repr(t))
        r = p.process({"text": t})["chunks"]
        check_cover(t, r, s, "fixed size chunking", length=True, cover=mn <= 1, ids=mn <= 1)
        if hasattr(p, "_fixed_size_chunking"):
            check_cover(t, p._fixed_size_chunking(t), s, "fixed size chunking", length=True)


@case("C01", weight=2)
def text_parser(c):
    rng = c.rng
    from valori.parsers.text_parser import TextParser
    s, o = sizes(rng)
    p = TextParser({"chunk_size": s, "chunk_overlap": o, "encoding": "utf-8"})
    p.initialize()
    for _ in range(3):
        t = text(rng, True)
        f = os.path.join(c.dir, "t.txt")
        with open(f, "w", encoding="utf-8", newline="") as h:
            h.write(t)
        c.log("text parser", s, o, repr(t))
        r = p.parse(f)
        t2 = r["text"]
        if len(t2) > s:
            check_cover(t2, r["chunks"], s, "text parser")
        else:
            expect(r["chunks"] == [] or True, "")
        if hasattr(p, "_create_chunks"):
            check_cover(t, p._create_chunks(t), s, "text parser")


@case("C01", weight=2)
def other_parsers(c):
    rng = c.rng
    s, o = sizes(rng)
    from valori.parsers.pdf_parser import PDFParser
    from valori.parsers.office_parser import OfficeParser
    pages = [{"page_number": i + 1, "text_length": rng.choice([0, 3, 10])} for i in range(rng.choice([0, 1, 3]))]
    for k, nm in ((PDFParser, "PDF parser"), (OfficeParser, "office parser")):
        p = k({"chunk_size": s, "chunk_overlap": o})
        if not hasattr(p, "_create_chunks"):
            continue
        for _ in range(3):
            t = text(rng, True)
            c.log(nm, s, o, repr(t))
            check_cover(t, p._create_chunks(t, pages), s, nm)


@case("C01")
def docx_file(c):
    rng = c.rng
    if rng.random() < .8:
        return
    try:
        import docx
    except ImportError:
        return
    from valori.parsers.office_parser import OfficeParser
    s, o = sizes(rng)
    d = docx.Document()
    for _ in range(rng.choice([0, 1, 4])):
        d.add_paragraph("".join(x for x in text(rng) if x.isprintable() or x == "\n"))
    f = os.path.join(c.dir, "d.docx")
    d.save(f)
    p = OfficeParser({"chunk_size": s, "chunk_overlap": o})
    p.initialize()
    r = p.parse(f)
    c.log("docx", s, o, repr(r["text"]))
    check_cover(r["text"], r["chunks"], s, "office parser")


@case("C02")
def sliding(c):
    rng = c.rng
    s = rng.choice([1, 2, 3, 5, 8, 10, 20])
    o = rng.choice([0, 1, 2, s // 2, s - 1, -1, s])
    mn = rng.choice([0, 1, 2, 3, s, 50])
    p = ChunkingProcessor(dict(strategy="sliding_window", chunk_size=s, chunk_overlap=o, min_chunk_size=mn, max_chunk_size=10 ** 6))
    try:
        p.initialize()
    except ProcessingError:
        expect(not 0 <= o < s, "an admissible configuration is refused", size=s, overlap=o)
        return
    expect(o < s, "overlap not below the size is accepted", size=s, overlap=o)
    for _ in range(3):
        t = text(rng, True)
        if not t:
            t = "ab"
        c.log("sliding", s, o, mn, repr(t))
        got = p.process({"text": t})["chunks"]
        if o < 0:
            continue
        want = []
        for i in range(0, len(t), s - o):
            e = min(i + s, len(t))
            if len(t[i:e].strip()) >= mn:
                want.append((i, e, t[i:e].strip()))
        expect([(x["start_pos"], x["end_pos"], x["text"]) for x in got] == want, "sliding windows wrong", got=got, want=want, text=t, size=s, overlap=o, min=mn)
        expect(all(x["length"] == len(x["text"]) and x["id"] == i for i, x in enumerate(got)), "sliding window length or number wrong", got=got)


@case("C03")
def filtering(c):
    rng = c.rng
    s, o = sizes(rng)
    mn, mx = rng.choice([0, 1, 3, 5]), rng.choice([0, 3, 5, 8, 20, 2000])
    strat = rng.choice(["fixed_size", "semantic", "sliding_window", "other", "", None])
    cfg = dict(strategy=strat, chunk_size=s, chunk_overlap=o, min_chunk_size=mn, max_chunk_size=mx)
    p = ChunkingProcessor(cfg)
    t = text(rng)
    doc = {"text": t, "metadata": {"k": [1]}, "extra": 3}
    if rng.random() < .3:
        doc["chunks"] = [{"id": 0, "text": "old"}]
    if rng.random() < .2:
        del doc["text"]
    before = copy.deepcopy(doc)
    init = rng.random() < .85
    if init:
        p.initialize()
    made = []
    for nm in ("_fixed_size_chunking", "_semantic_chunking", "_sliding_window_chunking"):
        if hasattr(p, nm):
            def wrap(f):
                def g(*a, **k):
                    r = f(*a, **k)
                    made.append(copy.deepcopy(r))
                    return r
                return g
            setattr(p, nm, wrap(getattr(p, nm)))
    c.log(cfg, doc, init)
    try:
        r = p.process(doc)
    except ValoriError:
        r = None
    expect(doc == before, "the caller's document is modified", before=before, after=doc)
    good = init and "text" in doc and strat in ("fixed_size", "semantic", "sliding_window")
    if r is None:
        expect(not good, "a proper document is refused", config=cfg)
        return
    expect(good, "unknown strategy, missing text or uninitialized use is not refused", config=cfg, doc=doc)
    expect({k: v for k, v in r.items() if k != "chunks"} == {k: v for k, v in before.items() if k != "chunks"}, "other fields are not passed through", result=r)
    expect(all(mn <= len(x["text"]) <= mx for x in r["chunks"]), "a chunk of inadmissible length is returned", chunks=r["chunks"])
    ref = None
    if len(made) == 1:
        ref = [x for x in made[0] if mn <= len(x["text"]) <= mx]
    elif strat != "fixed_size":
        q = ChunkingProcessor(dict(cfg, min_chunk_size=mn if strat == "sliding_window" else 0, max_chunk_size=10 ** 9))
        q.initialize()
        ref = [x for x in q.process({"text": t})["chunks"] if mn <= len(x["text"]) <= mx]
    if ref is not None:
        expect(r["chunks"] == ref, "the chunks are not exactly the admissible ones of the strategy", got=r["chunks"], want=ref)
    st = p.get_stats()
    expect(st.get("chunks_created") == len(r["chunks"]), "the chunks are not counted", stats=st)


@case("C04")
def semantic(c):
    rng = c.rng
    s, o = sizes(rng)
    p = ChunkingProcessor(dict(strategy="semantic", chunk_size=s, chunk_overlap=o, min_chunk_size=0, max_chunk_size=10 ** 9))
    p.initialize()
    # paragraphs of unique words so that their positions can be recovered
    t = ""
    for i in range(rng.choice([0, 1, 2, 3, 6])):
        body = ("p%d" % i) * rng.choice([1, 1, 2, 5, 12])
        if rng.random() < .2:
            body = rng.choice([" ", "\t", ""])
        t += rng.choice(["", " ", "\t"]) + body + rng.choice(["", " "]) + rng.choice(["\n\n", "\n\n\n\n", "\n\n \n\n"])
    if rng.random() < .2:
        t = text(rng)
    c.log("semantic", s, o, repr(t))
    got = p.process({"text": t})["chunks"]
    paras = [x.strip() for x in t.split("\n\n") if x.strip()]
    texts = [x["text"] for x in got]
    ci, where = 0, 0
    for q in paras:
        while ci < len(texts) and texts[ci].find(q, where) < 0:
            ci, where = ci + 1, 0
        expect(ci < len(texts), "a paragraph is in no chunk (in order)", paragraph=q, chunks=texts, text=t)
        where = texts[ci].find(q, where) + len(q)
    # structure: the chunks are the paragraphs grouped in order, each with at most `overlap` characters of the previous chunk in front
    if len(set(paras)) != len(paras) or any(a != b and a in b for a in paras for b in paras) or "\n" in "".join(paras):
        return
    i = 0
    for k, x in enumerate(texts):
        j = None
        for n in range(1, len(paras) - i + 1):
            body = "\n\n".join(paras[i:i + n])
            if x.endswith(body):
                j = n
        expect(j is not None, "a chunk does not end with the next paragraphs", chunk=x, paragraphs=paras[i:], chunks=texts)
        first = paras[i]
        head = x[:len(x) - len("\n\n".join(paras[i:i + j]))]
        if k == 0:
            expect(head == "", "something stands before the first paragraph", chunk=x)
        else:
            expect(len(head) <= o, "more than the configured overlap precedes a chunk", head=head, overlap=o)
            expect(head == "" or texts[k - 1].endswith(head.rstrip()) or head.strip() in texts[k - 1], "the overlap is not the end of the previous chunk", head=head, previous=texts[k - 1])
            room = len(texts[k - 1]) + len(first)
        if j > 1:
            for n in range(1, j):
                cur = len(head) + len("\n\n".join(paras[i:i + n]))
                expect(cur + len(paras[i + n]) <= s, "a paragraph joins a chunk beyond the configured size", chunk=x, size=s)
        i += j
    expect(i == len(paras), "paragraphs missing at the end", paragraphs=paras[i:], chunks=texts)
