I = "src/valori/indices/"
HN, IV, LS, AN = (I + n + ".py" for n in ("hnsw", "ivf", "lsh", "annoy"))
CL, RG, PL, EM, CH, TX = ("src/valori/client.py", "src/valori/parsers/registry.py", "src/valori/processors/pipeline.py", "src/valori/processors/embedding.py", "src/valori/processors/chunking.py", "src/valori/parsers/text_parser.py")
BM, SI, VA, FA = "src/valori/utils/batch_manager.py", "src/valori/utils/similarity.py", "src/valori/utils/validation.py", "src/valori/factory.py"
TE, IN = "src/valori/persistence/tensor.py", "src/valori/persistence/incremental.py"
SC, PR, SQ = ("src/valori/quantization/%s.py" % n for n in ("scalar", "product", "saq"))
PRE = "import os, tempfile, numpy as np\n"
IDX = PRE + """
from valori.indices import FlatIndex, HNSWIndex, IVFIndex, LSHIndex
from valori.indices.annoy import AnnoyIndex
from valori.storage import MemoryStorage
def idx(cls, **c):
    st = MemoryStorage({}); st.initialize()
    i = cls(c); i.initialize(st)
    return i, st
rng = np.random.default_rng(0)
"""
SEEDS = [
("I02-hnsw-delete-last-status", "I02", HN,
 [("""                if not sb.delete_vector(vector_id):
                    success = False
""", """                success = sb.delete_vector(vector_id)
""")], "a delete call over several ids of which one but not the last is absent",
 "delete reports success although an id was not present", IDX + """
i, st = idx(HNSWIndex)
ids = i.insert(rng.normal(size=(4, 3)))
assert i.delete([ids[0], "nope", ids[1]]) is False
"""),
("I02-ivf-update-alias", "I02", IV,
 [("self.vectors_cache[id] = vector.copy()", "self.vectors_cache[id] = vector")],
 "the caller reuses the array of an update afterwards", "the vector the index compares against is no longer the stored one", IDX + """
i, st = idx(IVFIndex, n_clusters=50, metric="euclidean")
ids = i.insert(rng.normal(size=(4, 3)))
v = np.ones(3)
assert i.update(ids[0], v)
v += 100
r = {x["id"]: x["distance"] for x in i.search(np.ones(3), 4)}
assert abs(r[ids[0]]) < 1e-6, r
"""),
("I03-zero-vector", "I03", HN,
 [("if norm1 == 0 or norm2 == 0:", "if norm1 == 0 and norm2 == 0:")],
 "exactly one of query and stored vector is zero", "the result carries NaN instead of the cosine distance 1", IDX + """
i, st = idx(HNSWIndex, metric="cosine")
i.insert(np.zeros((1, 3)))
r = i.search(np.ones(3), 1)
assert r[0]["distance"] == 1.0, r
"""),
("I03-merge-unsorted", "I03", HN,
 [("""            candidates.sort(key=lambda x: x[1])
            top_k = candidates[:k]
""", """            if len(candidates) > k:
                candidates.sort(key=lambda x: x[1])
            top_k = candidates[:k]
""")], "a search that finds no more candidates than it may return", "results come back out of order", IDX + """
for _ in range(20):
    i, st = idx(HNSWIndex, metric="euclidean", m=20, M=20)
    i.insert(rng.normal(size=(10, 3)))
    d = [x["distance"] for x in i.search(np.zeros(3), 10)]
    assert d == sorted(d), d
"""),
("I04-degree-cap", "I04", HN,
 [("""                        if vector_id not in self.levels[l][neighbor_id]:
                            self.levels[l][neighbor_id].append(vector_id)
""", """                        if (
                            vector_id not in self.levels[l][neighbor_id]
                            and len(self.levels[l][neighbor_id]) < 4 * self.m
                        ):
                            self.levels[l][neighbor_id].append(vector_id)
""")], "a node that has become the neighbour of many others", "edges present in one direction only; deleting the node leaves dangling links", IDX + """
i, st = idx(HNSWIndex, m=1, M=1)
i.m = 1
i.insert(rng.normal(size=(600, 3)))
for level in i.levels:
    for a, ns in level.items():
        for b in ns:
            assert a in level[b], (a, b)
"""),
("I05-singleton-cluster-kept", "I05", IV,
 [("""            if vector_id in vector_list:
                vector_list.remove(vector_id)
                break
""", """            if vector_id in vector_list:
                if len(vector_list) > 1:
                    vector_list.remove(vector_id)
                break
""")], "an update that moves the only vector of a cluster", "the vector is listed in two clusters (or twice in one)", IDX + """
i, st = idx(IVFIndex, n_clusters=2, n_probes=2, metric="euclidean")
ids = i.insert(np.array([[0.0, 0], [0, 1], [0, 2], [100, 100]]))
assert i._trained
i.update(ids[3], np.array([0.0, 1.5]))
r = [x["id"] for x in i.search(np.zeros(2), 10)]
assert len(r) == len(set(r)) == 4, r
"""),
("I05-opposite-direction", "I05", IV,
 [('min_distance = float("inf")', 'min_distance = 1.0 if self.metric == "cosine" else float("inf")')],
 "a vector at more than a right angle to every centroid", "the vector goes to the first cluster instead of the nearest", IDX + """
i, st = idx(IVFIndex, n_clusters=2, n_probes=2, metric="cosine")
ids = i.insert(np.array([[1.0, 0.1], [1, 0.11], [0.1, 1], [0.11, 1]]))
assert i._trained
for v in ([-1.0, -0.2], [-0.2, -1.0]):
    (n,) = i.insert(np.array([v]))
    c = i.centroids
    d = [1 - np.dot(v, x) / np.linalg.norm(v) / np.linalg.norm(x) for x in c]
    assert n in i.clusters[int(np.argmin(d))], (d, i.clusters)
"""),
("I06-update-same-hash", "I06", LS,
 [("""            for table_idx, hash_code in enumerate(new_hashes):
                self.hash_tables[table_idx][hash_code].append(vector_id)
""", """            for table_idx, hash_code in enumerate(new_hashes):
                if hash_code != old_hashes[table_idx]:
                    self.hash_tables[table_idx][hash_code].append(vector_id)
""")], "an update whose new vector keeps the hash of a table", "the vector disappears from that table", IDX + """
i = LSHIndex({"num_hash_tables": 3, "hash_size": 4, "num_projections": 12, "threshold": 0.1}); i.initialize()
i.add(np.array([[1.0, 2, 3]]), [{}])
assert i.update("0", np.array([1.0001, 2, 3]), {})
assert [x["id"] for x in i.search(np.array([1.0, 2, 3]), 3)] == [0]
"""),
("I06-first-tables-suffice", "I06", LS,
 [("""                candidates.update(self.hash_tables[table_idx][hash_code])

""", """                candidates.update(self.hash_tables[table_idx][hash_code])
            if len(candidates) >= k:
                break

""")], "a first table that already yields k candidates while a closer vector shares the bucket of a later table", "a less similar vector is returned instead of a more similar one", IDX + """
bad = 0
for s in range(30):
    i = LSHIndex({"num_hash_tables": 4, "hash_size": 2, "num_projections": 8, "threshold": -1.0, "random_seed": s, "metric": "cosine"}); i.initialize()
    v = rng.normal(size=(30, 3)); i.add(v, [{} for _ in v])
    for q in rng.normal(size=(10, 3)):
        h = i._hash_vector(q)
        c = set()
        for t, x in enumerate(h):
            c |= set(i.hash_tables[t].get(x, []))
        if c:
            sim = {j: float(np.dot(q, v[j]) / np.linalg.norm(q) / np.linalg.norm(v[j])) for j in c}
            r = i.search(q, 2)
            best = sorted(sim.values(), reverse=True)[:2]
            assert np.allclose([x["distance"] for x in r], best), (r, best)
"""),
("I07-clear-keeps-counter", "I07", AN,
 [("""        self._next_id = 0
        self._built = False

        if""", """        self._built = False

        if""")], "adding vectors after clearing the index", "ids no longer match positions: vectors vanish or carry the metadata of others", IDX + """
i = AnnoyIndex({"metric": "euclidean"}); i.initialize()
i.add(np.eye(3)[:1], [{"n": "old"}])
i.clear()
ids = i.add(np.eye(3), [{"n": 0}, {"n": 1}, {"n": 2}])
i.build()
r = i.search(np.eye(3)[0].astype(float), 3)
assert sorted(x["id"] for x in r) == sorted(ids) and r[0]["metadata"] == {"n": 0}, (ids, r)
"""),
("I08-metadata-wraps", "I08", IV,
 [("metadata[i] if metadata and i < len(metadata) else None", "metadata[i % len(metadata)] if metadata else None")],
 "a batch with fewer metadata entries than vectors", "vectors without an entry get the metadata of another vector", IDX + """
i, st = idx(IVFIndex, n_clusters=50, metric="euclidean")
ids = i.insert(np.eye(3), [{"a": 1}])
assert st.retrieve_vector(ids[2])[1] is None, st.retrieve_vector(ids[2])
"""),
("V01-update-empty-metadata", "V01", CL,
 [("return self.index.update(id, vector, metadata)", "return self.index.update(id, vector, metadata or None)")],
 "an update with an empty metadata dictionary", "the index is handed None instead of the empty dictionary", PRE + """
from valori import VectorDBClient
class X:
    def __init__(s): s.got = []
    def initialize(s, *a): pass
    def update(s, *a): s.got.append(a); return True
x = X(); c = VectorDBClient(x, x); c.initialize()
m = {}
c.update("a", np.ones(2), m)
assert x.got[0][2] is m, x.got
"""),
("R01-tie-by-name", "R01", RG,
 [("suitable_parsers.sort(key=lambda x: x[0], reverse=True)", "suitable_parsers.sort(key=lambda x: x[:2], reverse=True)")],
 "two registered parsers of the same priority that support the file", "not the first registered of them is picked", PRE + """
from valori.parsers.registry import ParserRegistry
def mk(n):
    class P:
        def __init__(s, c): s.name = n
        def initialize(s): pass
        def can_parse(s, p): return True
        def close(s): pass
    return P
r = ParserRegistry({"parsers": {}}); r.initialize()
for n in ("alpha", "zeta"):
    r.add_parser(n, mk(n), {})
assert r.get_parser("x.abc").name == "alpha"
"""),
("B01-duplicate-paths", "B01", PL,
 [("        for file_path in file_paths:\n", "        for file_path in dict.fromkeys(file_paths):\n")],
 "a batch that names the same document twice", "fewer results than inputs; later results shift", PRE + """
from valori.processors import ProcessingPipeline
open("a.txt", "w").write("hello world"); open("b.txt", "w").write("good bye")
p = ProcessingPipeline({"parsers": {"text": {}}, "processors": {}}); p.initialize()
r = p.batch_process_documents(["a.txt", "b.txt", "a.txt"])
assert [x["pipeline_metadata"]["file_path"] for x in r] == ["a.txt", "b.txt", "a.txt"]
"""),
("E01-key-trimmed", "E01", EM,
 [('content = f"{text}_{self.model_name}_{self.model_type}"', 'content = f"{text.strip()}_{self.model_name}_{self.model_type}"')],
 "two texts that differ in surrounding white space only, with caching on", "the embedding of one text is returned for another", PRE + """
from valori.processors import EmbeddingProcessor
e = EmbeddingProcessor({"cache_embeddings": True, "normalize_embeddings": False})
class M:
    def encode(s, t, **k): return np.array([float(len(t)), 1.0])
e._model = M(); e._initialized = True
a = e.process({"text": "ab"})["embedding"]; b = e.process({"text": " ab "})["embedding"]
assert a[0] == 2 and b[0] == 4, (a, b)
"""),
("C01-straddling-separator", "C01", CH,
 [("break_pos = text.rfind(separator, start, end)", "break_pos = text.rfind(separator, start, end + len(separator) - 1)")],
 "a separator of two characters that straddles the end of the window", "a chunk spans more than the configured size", PRE + """
from valori.processors import ChunkingProcessor
c = ChunkingProcessor({"strategy": "fixed_size", "chunk_size": 10, "chunk_overlap": 2, "min_chunk_size": 1}); c.initialize()
for n in range(1, 14):
    r = c.process({"text": "x" * n + ". " + "y" * 30})["chunks"]
    for k in r:
        assert k["end_pos"] - k["start_pos"] <= 10, k
"""),
("C01-text-parser-skip", "C01", TX,
 [("end = break_point + 1", "end = min(break_point + 2, len(text))")],
 "a full stop or line break at the last position of the window", "a chunk of the text parser spans more than the configured size", PRE + """
from valori.parsers.text_parser import TextParser
p = TextParser({"chunk_size": 10, "chunk_overlap": 2}); p.initialize()
open("a.txt", "w").write("x" * 9 + "." + "y" * 30)
for k in p.parse("a.txt")["chunks"]:
    assert k["end_pos"] - k["start_pos"] <= 10, k
"""),
("C02-stop-at-end", "C02", CH,
 [("""                            "window_position": i,
                        },
                    }
                )
""", """                            "window_position": i,
                        },
                    }
                )
                if end == len(text):
                    break
""")], "an overlap so large that several windows reach the end of the text", "windows inside the text are not looked at", PRE + """
from valori.processors import ChunkingProcessor
c = ChunkingProcessor({"strategy": "sliding_window", "chunk_size": 10, "chunk_overlap": 8, "min_chunk_size": 1}); c.initialize()
r = c.process({"text": "x" * 11})["chunks"]
assert [k["start_pos"] for k in r] == [0, 2, 4, 6, 8, 10], r
"""),
("C03-max-exclusive", "C03", CH,
 [('if self.min_chunk_size <= len(chunk["text"]) <= self.max_chunk_size:', 'if self.min_chunk_size <= len(chunk["text"]) < self.max_chunk_size:')],
 "a chunk of exactly the maximum length", "the chunk is dropped", PRE + """
from valori.processors import ChunkingProcessor
c = ChunkingProcessor({"strategy": "fixed_size", "chunk_size": 10, "chunk_overlap": 0, "min_chunk_size": 1, "max_chunk_size": 10, "separators": []}); c.initialize()
assert len(c.process({"text": "x" * 20})["chunks"]) == 2
"""),
("C04-size-plus-overlap", "C04", CH,
 [("if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:", "if (\n                current_chunk\n                and len(current_chunk) + len(paragraph)\n                > self.chunk_size + self.chunk_overlap\n            ):")],
 "a paragraph that fits only within size plus overlap", "a paragraph joins a chunk beyond the configured size", PRE + """
from valori.processors import ChunkingProcessor
c = ChunkingProcessor({"strategy": "semantic", "chunk_size": 20, "chunk_overlap": 5, "min_chunk_size": 1}); c.initialize()
r = [k["text"] for k in c.process({"text": "a" * 12 + "\\n\\n" + "b" * 11})["chunks"]]
assert len(r) == 2, r
"""),
("U01-blank-id", "U01", VA,
 [("    if isinstance(id, str) and len(id.strip()) == 0:", "    if isinstance(id, str) and not id:")],
 "an id of blanks only", "validate_id and validate_ids accept it", PRE + """
from valori.utils.validation import validate_id
try:
    validate_id(" \\t")
except Exception as e:
    assert type(e).__name__ == "ValidationError"
else:
    raise AssertionError("accepted")
"""),
("U01-zero-rows", "U01", VA,
 [("        zero_vectors = np.all(vectors == 0, axis=1)\n", "        zero_vectors = np.sum(vectors, axis=1) == 0\n")],
 "allow_zero=False and a non-zero row whose entries cancel", "a valid batch is rejected", PRE + """
from valori.utils.validation import validate_vectors
assert validate_vectors(np.array([[1.0, -1.0]]), allow_zero=False)
"""),
("U02-l1-norm", "U02", SI,
 [("norm_value = np.sum(np.abs(vector))", "norm_value = abs(np.sum(vector))")],
 "l1 normalization of a vector with entries of both signs", "the result does not have unit l1 norm", PRE + """
from valori.utils.similarity import normalize_vector
assert abs(np.abs(normalize_vector(np.array([3.0, -1.0]), "l1")).sum() - 1) < 1e-9
"""),
("U02-batch-tiny", "U02", SI,
 [("norms_b = np.where(norms_b == 0, 1, norms_b)", "norms_b = np.where(norms_b < 1e-8, 1, norms_b)")],
 "a vector that is tiny but not zero in the second batch", "its similarities come out near zero", PRE + """
from valori.utils.similarity import batch_cosine_similarity
s = batch_cosine_similarity(np.array([[1.0, 0]]), np.array([[1e-9, 0]]))
assert abs(s[0, 0] - 1) < 1e-6, s
"""),
("U04-last-batch-failed", "U04", BM,
 [("""                    self._stats["failed_items"] = int(
                        self._stats.get("failed_items", 0) or 0
                    ) + len(batch_vectors)
""", """                    self._stats["failed_items"] = (
                        int(self._stats.get("failed_items", 0) or 0) + self.batch_size
                    )
""")], "a failing last batch that is not full", "more failed vectors than there were", PRE + """
from valori.utils.batch_manager import BatchManager
class C:
    def insert(s, v, m):
        if len(v) < 4: raise RuntimeError("x")
        return list(range(len(v)))
b = BatchManager(batch_size=4)
b.batch_insert(C(), np.ones((6, 2)), [{}] * 6, show_progress=False)
s = b.get_stats()
assert s["processed_items"] + s["failed_items"] == s["total_items"] == 6, s
"""),
("U04-parallel-bool-error", "U04", BM,
 [("""                return batch_data["batch_id"], [], e
""", """                return batch_data["batch_id"], [], str(e)
""")], "a client that raises an exception without a message, in a parallel run", "the failed batch is not counted as failed", PRE + """
from valori.utils.batch_manager import BatchManager
class C:
    def insert(s, v, m):
        if v[0, 0] == 4: raise RuntimeError()
        return list(range(len(v)))
b = BatchManager(batch_size=4)
b.parallel_batch_insert(C(), np.arange(6.0).reshape(6, 1), [{}] * 6, show_progress=False)
s = b.get_stats()
assert s["processed_items"] == 4 and s["failed_items"] == 2, s
"""),
("F01-template-nested-override", "F01", FA,
 [("""    config.update(overrides)

    return create_vector_db(**config)""", """    for key, value in overrides.items():
        if isinstance(value, dict) and isinstance(config.get(key), dict):
            config[key].update(value)
        else:
            config[key] = value

    return create_vector_db(**config)""")], "a template with an index configuration that the caller overrides", "the template itself is changed for later callers", PRE + """
import copy
from valori.factory import TEMPLATES, create_from_template
t = copy.deepcopy(TEMPLATES)
create_from_template("document_search", index_config={"metric": "euclidean"}).close()
assert TEMPLATES == t, TEMPLATES["document_search"]
"""),
("P01-index-flattened", "P01", TE,
 [("""            file_path = self.data_dir / path

            # Ensure directory exists
            file_path.parent.mkdir(parents=True, exist_ok=True)

            # Serialize first: a failure must not truncate an earlier save
            payload = pickle.dumps(index_data""", """            file_path = self.data_dir / Path(path).name

            # Ensure directory exists
            file_path.parent.mkdir(parents=True, exist_ok=True)

            # Serialize first: a failure must not truncate an earlier save
            payload = pickle.dumps(index_data"""),
  ("""            file_path = self.data_dir / path

            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                index_data""", """            file_path = self.data_dir / Path(path).name

            if not file_path.exists():
                return None

            with open(file_path, "rb") as f:
                index_data""")], "index data saved under two paths with the same last component", "saving under one path changes what the other returns", PRE + """
from valori.persistence import TensorPersistence
t = TensorPersistence({"data_dir": "d"}); t.initialize()
t.save_index({"a": 1}, "x/i"); t.save_index({"a": 2}, "y/i")
assert t.load_index("x/i") == {"a": 1}, t.load_index("x/i")
"""),
("P01-ids-as-strings", "P01", TE,
 [('ids = data["ids"].tolist()', 'ids = [str(i) for i in data["ids"].tolist()]')],
 "a vector set with integer ids", "loading returns strings instead of the integers", PRE + """
from valori.persistence import TensorPersistence
t = TensorPersistence({"data_dir": "d"}); t.initialize()
t.save_vectors(np.ones((2, 2)), [1, 2], "v")
assert t.load_vectors("v")[1] == [1, 2]
"""),
("P02-lexicographic", "P02", IN,
 [('checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))', 'checkpoint_files.sort(key=lambda x: x.stem.split("_")[1])')],
 "checkpoints with operation numbers of different length", "an older checkpoint is restored", PRE + """
from valori.persistence import IncrementalPersistence
t = IncrementalPersistence({"data_dir": "d"}); t.initialize()
for i in range(12):
    t.save_state({"i": i}, "s")
    assert t.load_state("s") == {"i": i}, (i, t.load_state("s"))
"""),
("P03-interval-late", "P03", IN,
 [("                >= self.checkpoint_interval\n", "                > self.checkpoint_interval\n")],
 "as many saves without a state save as the checkpoint interval", "the checkpoint marker moves one operation late", PRE + """
from valori.persistence import IncrementalPersistence
t = IncrementalPersistence({"data_dir": "d", "checkpoint_interval": 3}); t.initialize()
for i in range(3):
    t.save_index({"i": i}, "s")
assert t.get_stats()["last_checkpoint"] == 3, t.get_stats()
"""),
("P03-restart-count", "P03", IN,
 [("""                "operation_count": self._operation_count,
                "timestamp\"""", """                "operation_count": self._last_checkpoint,
                "timestamp\""""),
  ("""            # Update checkpoint info
            self._last_checkpoint = self._operation_count
            self._save_checkpoint_info()

            # Log operation
            self._log_operation(
                "save_state", {"path": path, "checkpoint": str(checkpoint_path)}
            )
""", """            # Log operation
            self._log_operation(
                "save_state", {"path": path, "checkpoint": str(checkpoint_path)}
            )

            # Update checkpoint info
            self._last_checkpoint = self._operation_count
            self._save_checkpoint_info()
""")], "a state save", "the marker moves to the number after the operation of the state save", PRE + """
from valori.persistence import IncrementalPersistence
t = IncrementalPersistence({"data_dir": "d", "checkpoint_interval": 100}); t.initialize()
t.save_index({}, "a")
t.save_state({"i": 1}, "s")
assert t.get_stats()["last_checkpoint"] == 1, t.get_stats()
"""),
("Q01-tiny-range", "Q01", SC,
 [("scales = np.where(scales == 0, 1.0, scales)", "scales = np.where(scales < 1e-6, 1.0, scales)")],
 "a dimension whose trained range is tiny but not empty", "codes of that dimension are all zero: off by more than half a step", PRE + """
from valori.quantization import ScalarQuantizer
q = ScalarQuantizer({"bits": 8}); q.initialize()
v = np.linspace(0, 1e-5, 9).reshape(-1, 1)
q.train(v)
e = np.abs(q.dequantize(q.quantize(v)) - v).max()
assert e <= 1e-5 / 255, e
"""),
("Q01-truncate", "Q01", SC,
 [("rounded = np.rint(normalized_all)", "rounded = np.trunc(normalized_all + 1e-9)")],
 "a value in the upper half of a step", "decoding is off by more than half a step", PRE + """
from valori.quantization import ScalarQuantizer
q = ScalarQuantizer({"bits": 2}); q.initialize()
q.train(np.array([[0.0], [3.0]]))
assert q.quantize(np.array([[1.9]]))[0, 0] == 2
"""),
("Q02-many-centroids", "Q02", PR,
 [("if effective_k - 1 <= np.iinfo(np.uint8).max:", "if effective_k // 2 <= np.iinfo(np.uint8).max:")],
 "more than 256 centroids", "codes wrap around and denote the wrong centroid", PRE + """
from valori.quantization import ProductQuantizer
q = ProductQuantizer({"m": 1, "k": 300}); q.initialize()
v = np.arange(300.0).reshape(-1, 1).astype(np.float32)
q.train(v)
assert np.abs(q.dequantize(q.quantize(v)) - v).max() < 1
"""),
("Q02-manhattan", "Q02", PR,
 [("                    (subvectors[:, np.newaxis, :] - centroids_i[np.newaxis, :, :]) ** 2,\n", "                    np.abs(subvectors[:, np.newaxis, :] - centroids_i[np.newaxis, :, :]),\n")],
 "a sub-vector whose nearest centroid differs between the two norms", "the code is not the nearest centroid", PRE + """
from valori.quantization import ProductQuantizer
rng = np.random.default_rng(1)
q = ProductQuantizer({"m": 2, "k": 8}); q.initialize()
v = rng.normal(size=(200, 8)).astype(np.float32)
q.train(v)
c = q.quantize(v)
for i in range(2):
    d = ((v[:, None, 4 * i:4 * i + 4] - q.centroids[i][None]) ** 2).sum(2)
    assert (c[:, i] == d.argmin(1)).all()
"""),
("Q03-tight-budget", "Q03", SQ,
 [("                remaining_bits -= bits\n", "                remaining_bits = max(remaining_bits - bits, len(segment_variances))\n")],
 "a bit budget that is barely larger than the number of segments", "the bits add up to more than the budget", PRE + """
from valori.quantization import SAQQuantizer
q = SAQQuantizer({"total_bits": 5, "n_segments": 4}); q.initialize()
q.train(np.random.default_rng(0).normal(size=(20, 8)))
assert sum(q.segment_bits) == 5, q.segment_bits
"""),
("Q04-rounded-distances", "Q04", SQ,
 [("return np.argmin(dists, axis=1).astype(np.int32)", "return np.argmin(np.round(dists, 2), axis=1).astype(np.int32)")],
 "two centroids that are almost equally close", "the code is not the nearest centroid", PRE + """
from valori.quantization import SAQQuantizer
q = SAQQuantizer({"total_bits": 7, "n_segments": 1}); q.initialize()
v = np.random.default_rng(3).normal(size=(400, 1))
q.train(v)
c = q.quantize(v); x = q.scaler.transform(v)
d = ((x[:, None, :] - q.segment_quantizers[0].centroids[None]) ** 2).sum(2)
assert (d[np.arange(400), c[:, 0]] <= d.min(1) + 1e-6).all()
"""),
("Q04-overrelaxed", "Q04", SQ,
 [("candidate_input = reconstructed[:, start:end] + segment_residual", "candidate_input = reconstructed[:, start:end] + 1.5 * segment_residual"),
  ("if new_error < old_segment_error:", "if new_error < old_error:")],
 "a segment that is coded better than the others", "code adjustment replaces nearest centroids by worse ones", PRE + """
from valori.quantization import SAQQuantizer
rng = np.random.default_rng(3)
q = SAQQuantizer({"total_bits": 6, "n_segments": 2}); q.initialize()
v = rng.normal(size=(400, 11))
v[:, 0] = rng.uniform(-1, 1, size=400)
q.train(v)
c = q.quantize(v)
x = q.scaler.transform(v)
for i, (a, b) in enumerate(q.segment_boundaries):
    d = ((x[:, None, a:b] - q.segment_quantizers[i].centroids[None]) ** 2).sum(2)
    got = d[np.arange(len(v)), c[:, i]]
    assert (got <= d.min(1) + 1e-6).all(), i
"""),
("Q05-scaler-in-place", "Q05", SQ,
 [("self.scaler = StandardScaler()", "self.scaler = StandardScaler(copy=False)")],
 "double precision vectors given to quantize", "the caller's vectors are standardized in place", PRE + """
from valori.quantization import SAQQuantizer
q = SAQQuantizer({"total_bits": 6, "n_segments": 2}); q.initialize()
v = np.random.default_rng(3).normal(size=(40, 6)) * 5 + 3
q.train(v.copy())
w = v.copy()
q.quantize(w)
assert (w == v).all()
"""),
]
