M, H, DK, FL = ("src/valori/storage/memory.py", "src/valori/storage/hybrid.py", "src/valori/storage/disk.py", "src/valori/indices/flat.py")
PRE = "import os, tempfile, numpy as np\n"
SEEDS = [
("S01-empty-metadata-kept", "S01", M,
 [("""                # Update vector
                self.vectors[id] = vector.copy()

                # Update metadata
                if metadata is not None:
                    self.metadata[id] = metadata.copy()
                else:
                    self.metadata.pop(id, None)
""", """                # Update vector
                self.vectors[id] = vector.copy()

                # Update metadata
                if metadata:
                    self.metadata[id] = metadata.copy()
                elif metadata is None:
                    self.metadata.pop(id, None)
""")], "an update with an empty (but not missing) metadata dictionary over non-empty metadata",
 "the memory backend keeps the old metadata instead of the one of the last update", PRE + """
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
s.store_vector("a", np.ones(3), {"k": 1})
s.update_vector("a", np.zeros(3), {})
assert s.retrieve_vector("a")[1] == {}, s.retrieve_vector("a")
"""),
("S03-hybrid-hot-update-stale", "S03", H,
 [("""                if disk_success:
                    self.memory_storage.update_vector(id, vector, metadata)
""", """                if disk_success and metadata is not None:
                    self.memory_storage.update_vector(id, vector, metadata)
""")], "an update without metadata of a vector that is in the memory tier",
 "memory tier and disk disagree; retrieval returns the old vector", PRE + """
from valori.storage import HybridStorage
s = HybridStorage({"disk": {"data_dir": "d"}, "memory_limit": 4}); s.initialize()
s.store_vector("a", np.ones(3), {"k": 1})
s.update_vector("a", np.zeros(3))
v, m = s.retrieve_vector("a")
assert (v == 0).all() and m is None, (v, m)
"""),
("S03-hybrid-promotion-overflow", "S03", H,
 [("""                    if current_count < self.memory_limit:
                        self.memory_storage.store_vector(id, vector, metadata)
                    else:
                        # Evict and promote
""", """                    if current_count <= self.memory_limit:
                        self.memory_storage.store_vector(id, vector, metadata)
                    else:
                        # Evict and promote
""")], "a retrieval that misses a memory tier that is exactly full",
 "promotion takes the memory tier above its configured limit", PRE + """
from valori.storage import HybridStorage
s = HybridStorage({"disk": {"data_dir": "d"}, "memory_limit": 2}); s.initialize()
for i in "abc":
    s.store_vector(i, np.ones(3))
for i in "abc":
    s.retrieve_vector(i)
    assert s.get_stats()["memory"]["vector_count"] <= 2
"""),
("S04-hybrid-update-write-back", "S04", H,
 [("""                disk_success = self.disk_storage.update_vector(id, vector, metadata)

                # Update in memory if it exists there
                if disk_success:
                    self.memory_storage.update_vector(id, vector, metadata)
""", """                # Update in memory if it exists there
                disk_success = self.memory_storage.update_vector(id, vector, metadata)

                if not disk_success:
                    disk_success = self.disk_storage.update_vector(
                        id, vector, metadata
                    )
""")], "an update of a vector held in the memory tier, followed by close and reopen",
 "the update is never written to disk", PRE + """
from valori.storage import HybridStorage
c = {"disk": {"data_dir": "d"}, "memory_limit": 2}
s = HybridStorage(c); s.initialize()
s.store_vector("a", np.ones(3)); s.update_vector("a", np.zeros(3), {"x": 1}); s.close()
s = HybridStorage(c); s.initialize()
v, m = s.retrieve_vector("a")
assert (v == 0).all() and m == {"x": 1}, (v, m)
"""),
("S05-list-limit-zero", "S05", DK,
 [("            if limit is not None:\n                vector_ids = vector_ids[:limit]", "            if limit:\n                vector_ids = vector_ids[:limit]")],
 "listing with a limit of zero", "the disk backend lists every id although the limit is 0", PRE + """
from valori.storage import DiskStorage
s = DiskStorage({"data_dir": "d"}); s.initialize()
s.store_vector("a", np.ones(3)); s.store_vector("b", np.ones(3))
assert s.list_vectors(limit=0) == [] and len(s.list_vectors(limit=1)) == 1 and len(s.list_vectors()) == 2
"""),
("S02-memory-update-aliases", "S02", M,
 [("""                    return False

                # Update vector
                self.vectors[id] = vector.copy()
""", """                    return False

                # Update vector
                self.vectors[id] = np.ascontiguousarray(vector)
""")], "the caller modifies in place the contiguous array it passed to update_vector",
 "the stored vector changes with the caller's array", PRE + """
from valori.storage import MemoryStorage
s = MemoryStorage({}); s.initialize()
a = np.ones(3); s.store_vector("a", a); a[0] = 7
b = np.zeros(3); s.update_vector("a", b); b[1] = 9
assert (s.retrieve_vector("a")[0] == 0).all()
"""),
("I01-cosine-clipped", "I01", FL,
 [("                distances = 1 - similarities\n", "                distances = np.clip(1 - similarities, 0.0, 1.0)\n")],
 "the cosine metric and vectors that point away from the query (negative cosine)",
 "all vectors beyond 90 degrees get distance 1: wrong distances and wrong nearest neighbours", PRE + """
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
s = MemoryStorage({}); s.initialize()
x = FlatIndex({"metric": "cosine"}); x.initialize(s)
x.insert(np.array([[-1.0, 0.0], [-1.0, 1.0], [-1.0, 5.0]]))
r = x.search(np.array([1.0, 0.0]), 1)
assert abs(r[0]["distance"] - (1 + 1 / 26 ** 0.5)) < 1e-6, r
"""),
("I01-candidate-cap", "I01", FL,
 [("                vectors.append(vector)\n                valid_ids.append(vector_id)\n\n            if not vectors:", "                vectors.append(vector)\n                valid_ids.append(vector_id)\n                if len(valid_ids) >= max(10 * k, 100):\n                    break\n\n            if not vectors:")],
 "more than 100 live vectors (and more than ten times k)", "later vectors are never compared: nearest neighbours are missed", PRE + """
from valori.storage import MemoryStorage
from valori.indices import FlatIndex
s = MemoryStorage({}); s.initialize()
x = FlatIndex({"metric": "euclidean"}); x.initialize(s)
rng = np.random.default_rng(0)
ids = x.insert(rng.normal(size=(200, 4)))
v = s.retrieve_vector(ids[170])[0]
r = x.search(v, 1)
assert r[0]["id"] == ids[170], r
"""),
]
