From b3718bffb2d2f333cf061b5bcc5db6ee5469a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 01/22] fix: keep distinct ids distinct in disk storage file
 names

---
 src/valori/storage/disk.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..e29195e 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -4,6 +4,7 @@ Disk-based storage backend for the valori vector database.
 
 import os
 import pickle
+import re
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [self._restore_id(f.stem) for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +220,14 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Escape invalid characters so that distinct IDs get distinct filenames
+        safe_id = "".join(
+            c if c.isalnum() or c in "._-" else f"%{ord(c):06x}" for c in id
+        )
         return safe_id
+
+    def _restore_id(self, safe_id: str) -> str:
+        """Recover the ID from a filename produced by _sanitize_id."""
+        return re.sub(
+            "%([0-9a-f]{6})", lambda match: chr(int(match.group(1), 16)), safe_id
+        )
-- 
2.43.0


From 14070a39ef727926eb38f484f2b5dd4c41df7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 02/22] fix: return a copy of the metadata from memory storage

---
 src/valori/storage/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..4c86214 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -80,6 +80,8 @@ class MemoryStorage(StorageBackend):
 
             vector = self.vectors[id].copy()
             metadata = self.metadata.get(id)
+            if metadata is not None:
+                metadata = metadata.copy()
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
-- 
2.43.0


From 059c624e25d49472065977788db7c43899b710ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 03/22] fix: make HNSW search return distinct results and never
 come back empty

---
 src/valori/indices/hnsw.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..081140b 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -115,6 +115,9 @@ class HNSWIndex(Index):
 
             # Start from top level
             current_level = min(self.max_level, len(self.levels) - 1)
+            # Deletions may have emptied the top levels
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
             candidates = []
 
             # Find entry point at highest level
@@ -130,11 +133,14 @@ class HNSWIndex(Index):
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
+                # Keep the current candidates; never visit a node twice
+                new_candidates = list(candidates)
+                seen = {node_id for node_id, _ in candidates}
                 for node_id, _ in candidates:
                     if node_id in self.levels[current_level]:
                         for neighbor_id in self.levels[current_level][node_id]:
-                            if neighbor_id in self.vectors:
+                            if neighbor_id in self.vectors and neighbor_id not in seen:
+                                seen.add(neighbor_id)
                                 distance = self._compute_distance(
                                     query_vector, self.vectors[neighbor_id]
                                 )
@@ -148,10 +154,12 @@ class HNSWIndex(Index):
             # Final search at level 0
             if current_level == 0 and candidates:
                 final_candidates = []
+                seen = {node_id for node_id, _ in candidates}
                 for node_id, _ in candidates:
                     if node_id in self.levels[0]:
                         for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
+                            if neighbor_id in self.vectors and neighbor_id not in seen:
+                                seen.add(neighbor_id)
                                 distance = self._compute_distance(
                                     query_vector, self.vectors[neighbor_id]
                                 )
-- 
2.43.0


From 7abf317c2b1a2d9114a07704d9dd4b400b38b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 04/22] fix: LSH rejects bad ids, vectors and metadata without
 corrupting its tables

---
 src/valori/indices/lsh.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..acd540e 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -81,19 +81,22 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
-
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1]
+        if self.dimension is not None and dimension != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        metadata = [item.copy() for item in metadata]
+
+        # Set dimension on first accepted add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._generate_projections()
 
         assigned_ids = []
 
@@ -103,7 +106,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -199,7 +202,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -239,8 +242,11 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
         try:
             vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            if not 0 <= vector_id < len(self.vectors):
                 return False
+            if self.vectors[vector_id] is None:
+                return False
+            validate_vector(vector, self.dimension, self.dimension)
 
             # Remove old hashes
             old_vector = self.vectors[vector_id]
-- 
2.43.0


From cb8e34e176194df1cc196bf78ee2b7dd8ad27c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 05/22] fix: Annoy index skips removed vectors and updates in
 place

---
 src/valori/indices/annoy.py | 50 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..fd206eb 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -130,20 +130,20 @@ class AnnoyIndex(Index):
         """
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors):
+            if not 0 <= int_id < len(self.vectors) or self.vectors[int_id] is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
             if metadata is None:
                 metadata = self.metadata[int_id]
 
-            # Remove old vector
-            self.remove([int_id])
+            vector = vector.reshape(-1)
+            validate_vector(vector, self.dimension, self.dimension)
+            metadata = metadata.copy()
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # Replace the item under its ID (Annoy refuses this once it is built)
+            self._annoy_index.add_item(int_id, vector.astype(np.float32))
+            self.vectors[int_id] = vector.copy()
+            self.metadata[int_id] = metadata
 
             return True
         except Exception as e:
@@ -168,32 +168,35 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
-
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1]
+        if self.dimension is not None and dimension != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        metadata = [item.copy() for item in metadata]
+
+        # Set dimension on first accepted add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._create_annoy_index()
 
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
             vector_id = self._next_id
+
+            # Add to Annoy index (Annoy refuses this once it is built)
+            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
             self._next_id += 1
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
-
-            # Add to Annoy index
-            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+            self.metadata.append(metadata[i])
 
             assigned_ids.append(vector_id)
 
@@ -264,7 +267,11 @@ class AnnoyIndex(Index):
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            # Annoy keeps removed items, so skip them here
+            if (
+                neighbor_id < len(self.vectors)
+                and self.vectors[neighbor_id] is not None
+            ):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -291,7 +298,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
@@ -300,6 +307,7 @@ class AnnoyIndex(Index):
         """Clear all vectors from the index."""
         self.vectors.clear()
         self.metadata.clear()
+        self.dimension = None
         self._next_id = 0
         self._built = False
 
-- 
2.43.0


From 4bd2263501665990e3b156d31f9d5f2a714330a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 06/22] fix: SAQ bit allocation keeps at least one bit per
 segment

---
 src/valori/quantization/saq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..a8410ca 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -208,9 +208,12 @@ class SAQQuantizer(Quantizer):
         remaining_bits = self.total_bits
         for i, variance in enumerate(segment_variances):
             if i == len(segment_variances) - 1:
-                bits = remaining_bits
+                bits = max(1, remaining_bits)
             else:
-                bits = max(1, int(self.total_bits * (variance / total_variance)))
+                # Leave at least one bit for each of the remaining segments
+                spare_bits = remaining_bits - (len(segment_variances) - 1 - i)
+                bits = int(self.total_bits * (variance / total_variance))
+                bits = max(1, min(bits, spare_bits))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From 3e7b48a04f42b302ce98fce9dafcdadc74e5d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 07/22] fix: save vectors under exactly the requested path

---
 src/valori/persistence/incremental.py |  5 +++--
 src/valori/persistence/tensor.py      | 14 ++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..993914a 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -113,8 +113,9 @@ class IncrementalPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Save vectors (numpy would append ".npz" to a bare path)
+            with open(file_path, "wb") as f:
+                np.savez(f, vectors=vectors, ids=np.array(ids))
 
             # Log operation
             self._log_operation(
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..eb6697c 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -86,12 +86,14 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Write through a file object: numpy would append ".npz" to the path
+            with open(file_path, "wb") as f:
+                if self.compression:
+                    # Save with compression
+                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
+                else:
+                    # Save without compression
+                    np.savez(f, vectors=vectors, ids=np.array(ids))
 
             self._save_count += 1
             return True
-- 
2.43.0


From dacb416e6de2d4b8a30cc4f34f1bfc8539647650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 08/22] fix: incremental persistence never reuses operation or
 checkpoint numbers

---
 src/valori/persistence/incremental.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 993914a..44dffa4 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -305,6 +305,20 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+        # The info may be older than the files; never reuse one of their numbers
+        for checkpoint_path in self.data_dir.glob("checkpoint_*.pkl"):
+            number = int(checkpoint_path.stem.split("_")[1])
+            self._operation_count = max(self._operation_count, number + 1)
+
+        if self.log_file.exists():
+            with open(self.log_file, "r") as f:
+                for line in f:
+                    try:
+                        number = json.loads(line)["operation_id"]
+                    except (ValueError, KeyError, TypeError):
+                        continue  # not a complete log entry
+                    self._operation_count = max(self._operation_count, number + 1)
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From 3f6df9fb032ae24ed895ed8dbc574a37b276ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 09/22] fix: stop chunking once a chunk reaches the end of the
 text

---
 src/valori/parsers/office_parser.py | 4 ++++
 src/valori/parsers/pdf_parser.py    | 4 ++++
 src/valori/parsers/text_parser.py   | 4 ++++
 src/valori/processors/chunking.py   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..4b60f99 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -291,6 +291,10 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The text is used up once a chunk reaches its end
+            if end >= len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..dcd234e 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -201,6 +201,10 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The text is used up once a chunk reaches its end
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..2a371e4 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -157,6 +157,10 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The text is used up once a chunk reaches its end
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..0b35e46 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -117,6 +117,10 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            # The text is used up once a chunk reaches its end
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
-- 
2.43.0


From 0ce8b796595af7025997bd26d0494d76cc1b64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 10/22] fix: semantic chunking without overlap no longer
 repeats the previous chunk

---
 src/valori/processors/chunking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 0b35e46..fc98080 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -162,7 +162,7 @@ class ChunkingProcessor(DocumentProcessor):
                 # Start new chunk with overlap
                 overlap_text = (
                     current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
+                    if 0 < self.chunk_overlap < len(current_chunk)
                     else ""
                 )
                 current_chunk = overlap_text + paragraph
-- 
2.43.0


From 71d02e9f13bf5a440894c32bd4af2a7d07eb8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 11/22] fix: hand the configured parsers to the parser registry

---
 src/valori/processors/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..f1cbac3 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,7 +31,7 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
-- 
2.43.0


From a9105542962557402beb18d6e00e4cb7073c3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 12/22] fix: recommended configurations can be looked up again

---
 src/valori/configs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..9f6b938 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -462,27 +462,30 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "flat")
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
         elif use_case == "accuracy":
-            index_config = get_config("index", "medium_dataset")["hnsw_balanced"]
+            index_config = get_config("index", "hnsw_balanced")
             index_name = "hnsw"
         else:  # balanced
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
     elif dimension > 1000:
-        index_config = get_config("index", "high_dimensional")["lsh_balanced"]
+        index_config = get_config("index", "lsh_balanced")
         index_name = "lsh"
     else:
-        index_config = get_config("index", "large_dataset")["ivf_efficient"]
+        index_config = get_config("index", "ivf_efficient")
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From fceaf62d48196fffed265065e197ce985ac12c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 13/22] fix: recommend an index when the data size is unknown

---
 src/valori/utils/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..2f8b649 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -370,7 +370,7 @@ def memory_usage_decorator(func):
 
 
 def get_recommended_index_config(
-    num_vectors: int, dimension: int, use_case: str = "balanced"
+    num_vectors: Optional[int], dimension: Optional[int], use_case: str = "balanced"
 ) -> Dict[str, Any]:
     """
     Get recommended index configuration based on dataset characteristics.
@@ -383,6 +383,10 @@ def get_recommended_index_config(
     Returns:
         Recommended index configuration
     """
+    # Unknown sizes count as small
+    num_vectors = num_vectors or 0
+    dimension = dimension or 0
+
     if num_vectors < 1000:
         # Small dataset - use exact search
         return {"type": "flat", "config": {"metric": "cosine"}}
-- 
2.43.0


From 2547e2aa2a06a224a520d3a683b932001e573be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 14/22] fix: batch statistics describe the current run

---
 src/valori/utils/batch_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..6eaa4e6 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -75,6 +75,8 @@ class BatchManager:
             List of all inserted IDs
         """
         self._stats["total_items"] = len(vectors)
+        self._stats["processed_items"] = 0
+        self._stats["failed_items"] = 0
         self._stats["start_time"] = time.time()
 
         all_ids = []
@@ -131,6 +133,8 @@ class BatchManager:
             List of search results for each query
         """
         self._stats["total_items"] = len(query_vectors)
+        self._stats["processed_items"] = 0
+        self._stats["failed_items"] = 0
         self._stats["start_time"] = time.time()
 
         all_results = []
@@ -192,6 +196,8 @@ class BatchManager:
             List of all inserted IDs
         """
         self._stats["total_items"] = len(vectors)
+        self._stats["processed_items"] = 0
+        self._stats["failed_items"] = 0
         self._stats["start_time"] = time.time()
 
         all_ids = []
-- 
2.43.0


From fcbd0750b8d2d629a0dbddf2cb8e46b1b2370e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 15/22] fix: parallel batch insertion returns ids in input
 order

---
 src/valori/utils/batch_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 6eaa4e6..3f028c2 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -221,6 +221,8 @@ class BatchManager:
             except Exception as e:
                 return batch_data["batch_id"], [], e
 
+        ids_by_batch: Dict[int, List[int]] = {}
+
         try:
             with ThreadPoolExecutor(max_workers=self.max_workers) as executor:
                 # Submit all batches
@@ -239,7 +241,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -252,6 +254,10 @@ class BatchManager:
                             self._stats["processed_items"], self._stats["total_items"]
                         )
 
+            # Batches complete in any order; return IDs in input order
+            for batch_id in sorted(ids_by_batch):
+                all_ids.extend(ids_by_batch[batch_id])
+
         finally:
             self._stats["end_time"] = time.time()
 
-- 
2.43.0


From 7bec35813f9abeaf43b852a6f09ee31fe0691206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 16/22] fix: LSH hashing with more hash bits than projections

---
 src/valori/indices/lsh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index acd540e..82d10bd 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -336,8 +336,9 @@ class LSHIndex(Index):
 
             if end_idx > self.num_projections:
                 # Wrap around if needed
-                proj_indices = list(range(start_idx, self.num_projections))
-                proj_indices.extend(range(0, end_idx - self.num_projections))
+                proj_indices = [
+                    i % self.num_projections for i in range(start_idx, end_idx)
+                ]
                 selected_projections = self.projections[proj_indices]
             else:
                 selected_projections = self.projections[start_idx:end_idx]
@@ -346,7 +347,8 @@ class LSHIndex(Index):
             dot_products = np.dot(selected_projections, vector)
 
             # Apply offsets and threshold to get binary hash
-            hash_bits = (dot_products + self.offsets[: len(dot_products)]) >= 0
+            offsets = np.resize(self.offsets, len(dot_products))
+            hash_bits = (dot_products + offsets) >= 0
 
             # Convert to hash string
             hash_string = "".join(["1" if bit else "0" for bit in hash_bits])
-- 
2.43.0


From 7d6b7020dfdfa9c94da6bbd93889d67158a08062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 17/22] fix: embedding cache does not hand out its own arrays

---
 src/valori/processors/embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..ee2c511 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -168,7 +168,7 @@ class EmbeddingProcessor(DocumentProcessor):
         # Cache embedding
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = embedding.copy()
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From 547661ce730bb7168ec4835e85aa21afcc9d108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 18/22] fix: validators report non-numeric arrays with the
 validation error

---
 src/valori/utils/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..89e8752 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -56,6 +56,9 @@ def validate_vector(
             f"Vector dtype {vector.dtype} does not match expected {dtype}"
         )
 
+    if not np.issubdtype(vector.dtype, np.number) and vector.dtype != np.bool_:
+        raise ValidationError(f"Vector dtype {vector.dtype} is not numeric")
+
     if not allow_zero and np.all(vector == 0):
         raise ValidationError("Zero vector not allowed")
 
@@ -118,6 +121,9 @@ def validate_vectors(
             f"Vectors dtype {vectors.dtype} does not match expected {dtype}"
         )
 
+    if not np.issubdtype(vectors.dtype, np.number) and vectors.dtype != np.bool_:
+        raise ValidationError(f"Vectors dtype {vectors.dtype} is not numeric")
+
     if not allow_zero:
         zero_vectors = np.all(vectors == 0, axis=1)
         if np.any(zero_vectors):
-- 
2.43.0


From da0d40262188f4ed23c638b304ad9ffdbf709a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 19/22] fix: metadata validation reports too deeply nested
 values

---
 src/valori/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 89e8752..ddc0b1b 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -340,7 +340,7 @@ def validate_metadata(metadata: Optional[Dict[str, Any]]) -> bool:
             import json
 
             json.dumps(value)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, RecursionError):
             raise ValidationError(
                 f"Metadata value for key '{key}' is not JSON serializable"
             )
-- 
2.43.0


From 1a9126a7658556704dc45337e80d9554b71bd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 20/22] fix: a failing tensor save must not destroy the earlier
 save

The target file was opened (and truncated) before the data was serialized, so
a state, index or id list that cannot be serialized lost what was saved
under the same path.
---
 src/valori/persistence/tensor.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index eb6697c..9d99b9f 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -2,6 +2,7 @@
 Tensor-based persistence implementation for the valori vector database.
 """
 
+import io
 import pickle
 from pathlib import Path
 from typing import Any, Dict, Optional, Tuple
@@ -46,8 +47,10 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
+            # Serialize first: a failure must not truncate an earlier save
+            payload = pickle.dumps(state, protocol=pickle.HIGHEST_PROTOCOL)
             with open(file_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+                f.write(payload)
 
             self._save_count += 1
             return True
@@ -86,14 +89,18 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            # Write through a file object: numpy would append ".npz" to the path
+            # Serialize to memory first: a failure must not truncate an earlier
+            # save (and numpy would append ".npz" to the path)
+            buffer = io.BytesIO()
+            if self.compression:
+                # Save with compression
+                np.savez_compressed(buffer, vectors=vectors, ids=np.array(ids))
+            else:
+                # Save without compression
+                np.savez(buffer, vectors=vectors, ids=np.array(ids))
+
             with open(file_path, "wb") as f:
-                if self.compression:
-                    # Save with compression
-                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
-                else:
-                    # Save without compression
-                    np.savez(f, vectors=vectors, ids=np.array(ids))
+                f.write(buffer.getvalue())
 
             self._save_count += 1
             return True
@@ -134,8 +141,10 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
+            # Serialize first: a failure must not truncate an earlier save
+            payload = pickle.dumps(index_data, protocol=pickle.HIGHEST_PROTOCOL)
             with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+                f.write(payload)
 
             self._save_count += 1
             return True
-- 
2.43.0


From 2cc8fd7eb2a0921ca7bc3edc4203dec8ae7a4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 21/22] fix: a failing incremental save must not destroy the
 earlier save

An unserializable state left a truncated checkpoint file with the highest
number, so every later load failed although earlier checkpoints were intact;
vector and index files were truncated likewise.
---
 src/valori/persistence/incremental.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 44dffa4..4952637 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -2,6 +2,7 @@
 Incremental persistence implementation for the valori vector database.
 """
 
+import io
 import json
 import pickle
 from datetime import datetime
@@ -62,8 +63,10 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
+            # Serialize first: a failure must not leave a truncated checkpoint
+            payload = pickle.dumps(state, protocol=pickle.HIGHEST_PROTOCOL)
             with open(checkpoint_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+                f.write(payload)
 
             # Update checkpoint info
             self._last_checkpoint = self._operation_count
@@ -114,8 +117,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors (numpy would append ".npz" to a bare path)
+            buffer = io.BytesIO()
+            np.savez(buffer, vectors=vectors, ids=np.array(ids))
             with open(file_path, "wb") as f:
-                np.savez(f, vectors=vectors, ids=np.array(ids))
+                f.write(buffer.getvalue())
 
             # Log operation
             self._log_operation(
@@ -162,8 +167,9 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
+            payload = pickle.dumps(index_data, protocol=pickle.HIGHEST_PROTOCOL)
             with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+                f.write(payload)
 
             # Log operation
             self._log_operation("save_index", {"path": path})
-- 
2.43.0


From 6da09bea1152fe7270c1e1ab2f1e6ff87adab758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 22/22] fix: incremental vector saves accept numpy integer ids

The log entry of such a save could not be serialized, so the save was reported
as failed although the vector file had already been replaced.
---
 src/valori/persistence/incremental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 4952637..fa97b1c 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -253,7 +253,7 @@ class IncrementalPersistence(PersistenceManager):
             }
 
             with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+                f.write(json.dumps(log_entry, default=str) + "\n")
 
             self._operation_count += 1
 
-- 
2.43.0

