#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, pathlib
S="src/valori/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"where":", ".join(S+f for f in files)}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("S01","Storage backends are last-write-wins maps",
 "In every storage backend, retrieving an id returns exactly the vector and metadata of the last store or update accepted for that id, and nothing if it was never stored or was deleted since; storing or updating without metadata clears earlier metadata. Update and delete report whether the id was present, and on an absent id they change nothing. An operation on one id never changes what any other id returns.",
 ["histories","inputs"],"all finite histories of store/retrieve/update/delete/list calls over arbitrary non-empty ids (including ids with path separators, dots, unicode), arrays and metadata, on memory, disk and hybrid backends with any memory limit",
 "A test samples a few histories and friendly ids; the map law has to hold after every history and for every pair of ids, including ids that only differ in characters a file name cannot hold.",
 ["storage/memory.py","storage/disk.py","storage/hybrid.py","storage/base.py"],
 [("store/retrieve/delete/update","storage/*.py"),("file naming of ids","storage/disk.py")],
 "id -> (vector, metadata) map kept in memory and/or on disk","return values of the storage interface")
prop("S02","Stored data is isolated from the caller's objects",
 "After a vector has been stored or updated, modifying in place the array, or adding, replacing or removing entries of the metadata dictionary, that the caller passed in never changes what the storage returns. The same holds for arrays and metadata dictionaries a retrieval returned: modifying them never changes the stored data.",
 ["histories","inputs"],"all histories of storage operations interleaved with arbitrary in-place modifications of every array and metadata dictionary passed in or handed out (top level of the dictionary)",
 "Aliasing only shows when a caller mutates an object after some particular sequence of operations (cache hit, promotion, update); tests do not mutate.",
 ["storage/memory.py","storage/disk.py","storage/hybrid.py"],
 [("defensive copies on the way in","storage/memory.py store_vector/update_vector"),("defensive copies on the way out","storage/memory.py retrieve_vector, storage/hybrid.py retrieve_vector")],
 "arrays and dictionaries owned by the backend","retrieve_vector results after caller mutations")
prop("S03","Hybrid memory tier is bounded and coherent with disk",
 "The hybrid backend never holds more vectors in its memory tier than the configured limit (at least one). Everything held in the memory tier is also on disk with the same vector and metadata, so eviction and promotion never change what a retrieval returns.",
 ["histories","configurations"],"all histories of operations and all memory limits >= 1",
 "Stale or orphaned cache entries appear only for particular orders of store, evict, update, delete and promote around the limit.",
 ["storage/hybrid.py","storage/memory.py","storage/disk.py"],
 [("write-through store/update/delete","storage/hybrid.py"),("eviction and promotion","storage/hybrid.py")],
 "memory tier contents vs disk tier contents","retrieve_vector, get_stats of both tiers")
prop("S04","Disk-backed storage survives close and reopen",
 "After any history on a disk or hybrid backend, closing it and initializing a new backend on the same directory yields exactly the same ids, vectors and metadata. Initializing never alters or removes data that is already there.",
 ["histories"],"all histories of completed operations, followed by closing (or simply abandoning) the backend and initializing a new one on the same directory, any number of times",
 "Tests reopen after one or two stores; the law must hold for every history, including overwritten, metadata-less and deleted entries.",
 ["storage/disk.py","storage/hybrid.py"],
 [("file layout and initialize","storage/disk.py"),("delegation to the disk tier","storage/hybrid.py")],
 "files under the data directory","retrieve_vector/list_vectors after reopen")
prop("S05","Listing and counting are exact",
 "Listing ids returns every live id exactly once and nothing else, in the spelling the caller used; with a limit it returns min(limit, count) of them. The vector count reported by the statistics equals the number of live ids after every operation.",
 ["histories","inputs"],"all histories of storage operations, all ids and all limits >= 0, on memory, disk and hybrid backends",
 "Counters drift only under particular sequences (overwrite, update, delete of absent ids, reopen); tests check a single count.",
 ["storage/memory.py","storage/disk.py","storage/hybrid.py"],
 [("list_vectors","storage/*.py"),("vector_count bookkeeping","storage/memory.py, storage/disk.py")],
 "live id set and cached counters","list_vectors, get_stats")
prop("I01","Flat index search is exact",
 "Searching the flat index with k >= 1 returns min(k, n) results for n live vectors, with distinct ids, each with the true distance (1 - cosine similarity, or Euclidean) between the query and the currently stored vector and the currently stored metadata, in non-decreasing order of distance. No vector left out is closer to the query than one that is returned.",
 ["inputs","histories"],"all contents of the index (vectors of one dimension, after any history of insert, update, delete), all queries of that dimension and all k, both metrics",
 "Exactness quantifies over every stored vector and every query; tests look at a few random ones and mostly only at lengths.",
 ["indices/flat.py"],[("brute force scan, top-k selection","indices/flat.py search")],
 "id list, vector cache, storage backend","search results")
prop("I02","Index contents follow storage and every operation",
 "For the flat, HNSW and IVF indices, after any sequence of insert, update and delete calls the set of ids the index can return is exactly the set of live ids in its storage, and the vector it compares against for an id is the one currently stored. Deleted ids are never returned, delete reports whether every id was present, and update of an absent id returns False and changes nothing.",
 ["histories","inputs"],"all histories of insert/update/delete/search calls on an index that owns its storage, all batch sizes and id lists, before and after IVF training",
 "Index caches and storage are updated at separate places; only particular sequences leave a stale cache entry or a resurrected id.",
 ["indices/flat.py","indices/hnsw.py","indices/ivf.py"],
 [("paired storage/index updates","indices/{flat,hnsw,ivf}.py insert/update/delete"),("vector caches","vector_cache, vectors, vectors_cache")],
 "index id lists, vector caches, storage map","search results, return values")
prop("I03","HNSW search results are sound",
 "Searching a non-empty HNSW index with k >= 1 returns at least one and at most min(k, n) results, with distinct live ids, each carrying the true distance between the query and the current vector and the current metadata, in non-decreasing order of distance.",
 ["histories","inputs","schedules"],"all histories of insert, update and delete, all random level assignments and neighbour choices, all queries and k",
 "The graph shape is random; empty or duplicated results need particular level draws and deletion orders.",
 ["indices/hnsw.py"],[("level descent and candidate selection","indices/hnsw.py search")],
 "level graph, vector map","search results")
prop("I04","HNSW graph stays well formed",
 "After every operation, the HNSW graph contains exactly the live vectors on its bottom level, every node of an upper level also appears on the level below, every edge connects two nodes of the same level and is present in both directions, and no node is linked to itself or twice to the same neighbour.",
 ["histories","schedules"],"all histories of insert, update and delete and all random draws",
 "Dangling or one-way links arise only for some random draws followed by some deletions.",
 ["indices/hnsw.py"],[("insertion and bidirectional linking","indices/hnsw.py _insert_vector_internal"),("unlinking","indices/hnsw.py _remove_vector_internal")],
 "level graph","index graph structure")
prop("I05","IVF clusters partition the live vectors",
 "Once trained, every live vector of the IVF index is listed in exactly one cluster exactly once and no cluster lists anything else, through later inserts, updates and deletes; a vector inserted or updated after training is placed in the cluster whose centroid is nearest under the index metric. Search results are distinct live ids with true distances and current metadata in non-decreasing order, at most k of them; when all clusters are probed or the index is untrained the result is the exact top k.",
 ["histories","inputs"],"all histories before and after training, all cluster and probe counts, both metrics, all queries and k",
 "Losing or duplicating a vector needs a specific order of training, re-assignment and deletion; tests check result counts only.",
 ["indices/ivf.py"],[("training","indices/ivf.py _train_index"),("assignment maintenance","indices/ivf.py _add_to_cluster/_update_cluster_assignment/delete"),("probing","indices/ivf.py search")],
 "centroids, cluster lists, vector cache","search results, cluster lists")
prop("I06","LSH tables and results stay consistent",
 "In the LSH index every live vector is listed in every hash table exactly once, under the hash of its current value, and removed vectors are listed nowhere, after any sequence of add, update and remove calls; a call that is rejected leaves the index as it was. Search returns at most k distinct live ids, each with the true similarity to its current vector (at or above the threshold) and its own metadata, in non-increasing order. No live vector that shares a hash bucket with the query and meets the threshold is left out while a less similar one is returned or fewer than k are returned.",
 ["histories","inputs","configurations"],"all histories of add, insert, update, remove, delete and clear with arbitrary (also negative or unknown) ids and vectors, all table, hash-size and projection counts, all queries, k and thresholds",
 "Stale bucket entries are created by particular update/remove orders and wrap-around projection layouts, and only show for queries hashing there.",
 ["indices/lsh.py"],[("bucket maintenance","indices/lsh.py add/update/remove"),("hashing","indices/lsh.py _hash_vector"),("candidate ranking","indices/lsh.py search")],
 "hash tables, vector and metadata lists","search results, table contents")
prop("I07","Annoy index never returns removed or mismatched vectors",
 "The Annoy index returns only live ids, each at most once and with the metadata currently attached to that id, and at most k of them; removed ids never come back. A vector added before the build is registered with the search structure under the same id it was given, updating an id before the build replaces its vector and metadata in place, and a rejected call leaves the index as it was.",
 ["histories","inputs"],"all histories of add, insert, update, remove, delete, build and search with arbitrary ids (also negative or unknown), all k",
 "Misalignment between the id, the vector list and the search structure appears only after particular update and remove orders.",
 ["indices/annoy.py"],[("id allocation and registration","indices/annoy.py add/update"),("result filtering","indices/annoy.py search")],
 "vector and metadata lists, annoy structure","search results, get_stats")
prop("I08","Batch insertion pairs ids, vectors and metadata by position",
 "For every index, inserting a batch of n vectors returns n distinct ids that were not live before; the i-th id denotes the i-th vector with the i-th metadata entry (none if missing). Previously inserted vectors and their metadata are unaffected.",
 ["inputs","histories"],"all batches (any size, including empty), metadata lists shorter, longer or absent where accepted, on every index type and in every reachable state",
 "An off-by-one or a shared object between rows shows only for particular batch shapes and later lookups of each single id.",
 ["indices/flat.py","indices/hnsw.py","indices/ivf.py","indices/lsh.py","indices/annoy.py"],
 [("insert/add loops","indices/*.py")],"id allocation, storage map","insert results followed by retrieval")
prop("Q01","Scalar quantization is in range and within half a step",
 "After training, every code the scalar quantizer produces lies between 0 and 2^bits - 1, and for every input inside the trained range decoding its code gives a value within half a quantization step, where the step is the trained range of that dimension divided by 2^bits - 1. Inputs below the trained range decode to its lower end, encoding never decreases when the input component grows, and codes and decoded arrays have the shape of the input.",
 ["inputs","configurations"],"all training sets, all 2-D input arrays (inside and outside the training range) and bit widths 1..16, real arithmetic",
 "The error bound is a statement about every real input including out-of-range values, constant training data and rounding ties.",
 ["quantization/scalar.py"],[("train/quantize/dequantize","quantization/scalar.py")],"trained minimum, maximum and scale","codes and decoded vectors")
prop("Q02","Product quantization encodes to the nearest centroid",
 "After training, the product quantizer's code for each sub-vector is a valid centroid number and no other centroid of that sub-space is closer to the sub-vector; decoding puts exactly the chosen centroids next to each other, in order. The distance between a query and a code is the Euclidean distance between the query and the decoded vector.",
 ["inputs","configurations"],"all trained codebooks (up to 65536 centroids), all input arrays of the trained dimension, all sub-space counts dividing the dimension",
 "Nearest-centroid optimality and the decode/distance relation quantify over every input and codebook.",
 ["quantization/product.py"],[("encode/decode","quantization/product.py"),("distance","quantization/product.py")],"per-subspace codebooks","codes, decoded vectors, distances")
prop("Q03","SAQ segments partition the dimensions within the bit budget",
 "After training, the SAQ quantizer's segments are consecutive, non-empty, non-overlapping ranges that cover every dimension exactly once, at most as many as requested. Every segment gets at least one bit, and the bits add up to exactly the configured budget whenever the budget allows one bit per segment.",
 ["inputs","configurations"],"all training sets, dimensions >= 1, bit budgets >= 1 and requested segment counts >= 1",
 "Off-by-one boundaries and exhausted budgets appear for particular (dimension, segments, budget) triples only.",
 ["quantization/saq.py"],[("segmentation and bit allocation","quantization/saq.py")],"segment list, bit list","segments and bits after training")
prop("Q04","SAQ codes denote nearest centroids; adjustment never hurts",
 "Every code the SAQ quantizer emits is the number of a centroid of its segment, and no other centroid of that segment is closer to the (standardized) sub-vector. Decoding fills each segment of the output with exactly the centroid the code denotes, scaled back; code adjustment never makes the reconstruction error of a batch larger than plain nearest-centroid coding.",
 ["inputs","configurations"],"all trained quantizers and all inputs of the trained dimension, real arithmetic",
 "Nearest-centroid and never-worse claims quantify over every input and codebook; a wrong segment offset or comparison only shows on particular inputs.",
 ["quantization/saq.py"],[("encode/adjust/decode","quantization/saq.py")],"per-segment grids","codes and decoded vectors")
prop("Q05","Quantizing is pure and checks its preconditions",
 "Quantize, dequantize and distance calls never modify their arguments or the trained state of a quantizer, so equal inputs always give equal outputs whatever was done in between. Calls before training or initialization are rejected with the library's quantization error.",
 ["histories","inputs"],"all histories of quantize/dequantize/distance calls on every quantizer",
 "Hidden state changes and in-place edits of arguments only show when earlier results are compared with later ones.",
 ["quantization/scalar.py","quantization/product.py","quantization/saq.py"],[("quantize/dequantize","quantization/*.py")],"trained parameters","outputs over a history of calls")
prop("P01","Tensor persistence round-trips every name",
 "Whatever state, index data or vector set is saved under a path by the tensor persistence manager is exactly what loading that path returns until it is saved again, for every accepted path spelling and also after re-initialization on the same directory; loading a path never saved returns the documented empty value. Saving under one path never changes what a different path returns, and a save that fails leaves what was saved before.",
 ["histories","inputs"],"all histories of save/load and restarts over arbitrary relative paths (with or without a suffix), states and vector sets, with and without compression",
 "Suffix handling and naming collisions depend on the path spelling; tests use one spelling.",
 ["persistence/tensor.py"],[("save/load","persistence/tensor.py")],"files in the save directory","load results")
prop("P02","Incremental persistence restores the newest checkpoint",
 "Loading a state from the incremental persistence manager returns the state given to the most recent successful state save on that directory, also after the manager is re-initialized on the same directory any number of times, and even if its bookkeeping file is lost. A later save never overwrites or loses against an earlier checkpoint after a restart, and a state that cannot be serialized leaves the earlier one loadable. Vector sets and index data come back from the path they were saved under.",
 ["histories","crash_points"],"all histories of state, vector and index saves and restarts between operations, all checkpoint intervals >= 1, also when the bookkeeping file is missing or unreadable; paths other than the manager's own file names",
 "The order among checkpoint files only goes wrong after particular numbers of saves and restarts.",
 ["persistence/incremental.py"],[("checkpoint numbering and selection","persistence/incremental.py")],"checkpoint files, counters","load results after any history")
prop("P03","Operation log is complete and strictly ordered",
 "Every save writes exactly one log entry, appended after the earlier ones, which stay untouched. Operation numbers strictly increase along the log, across restarts too, and the checkpoint marker moves to the current operation number exactly when a state is saved or the configured number of operations has passed since the last marker.",
 ["histories","configurations"],"all histories of save calls and restarts, all checkpoint intervals >= 1",
 "Repeated or skipped numbers need a particular interleaving of saves, checkpoints and restarts.",
 ["persistence/incremental.py"],[("operation log","persistence/incremental.py")],"log file, counters","log contents")
prop("C01","Fixed-size chunking covers the text and terminates",
 "Splitting a text into fixed-size chunks terminates, every chunk is the trimmed non-empty text between its reported start and end, spans at most the configured size, and is numbered consecutively; chunk starts strictly increase and every non-blank character lies inside some chunk. Nothing is emitted after the chunk that reaches the end of the text. This holds for the chunking processor and for the text, PDF and office parsers' chunkers.",
 ["inputs","configurations"],"all texts, all separators, all minimum sizes >= 0, and all chunk sizes and overlaps with 0 <= overlap < chunk size",
 "Loss, repetition or non-termination occur for particular alignments of sentence ends, overlap and text end.",
 ["processors/chunking.py","parsers/text_parser.py","parsers/pdf_parser.py","parsers/office_parser.py"],
 [("fixed size chunking","processors/chunking.py"),("chunk creation","parsers/*_parser.py _create_chunks")],None,"chunk lists")
prop("C02","Sliding windows cover the text at the configured step",
 "Sliding-window chunking looks at exactly one window for every multiple of the step (window size minus overlap) inside the text, in order; each window runs to the window size or the end of the text, and exactly those whose trimmed text has the minimum length are emitted, with true positions, text and length. It terminates for every accepted configuration.",
 ["inputs","configurations"],"all texts, window sizes and overlaps with 0 <= overlap < window",
 "Coverage and termination depend on text length modulo step.",
 ["processors/chunking.py"],[("sliding window","processors/chunking.py")],None,"chunk lists")
prop("C03","Chunk filtering and metadata are faithful",
 "The chunking processor returns exactly the chunks its strategy produced whose text length lies between the configured minimum and maximum, unchanged and in order, and counts them; the other fields of the document are passed through and the caller's document is not modified. Unknown strategies, missing text and use before initialization are rejected.",
 ["inputs","configurations"],"all documents, strategies and minimum lengths",
 "A filter or in-place change hits only particular documents.",
 ["processors/chunking.py"],[("process","processors/chunking.py")],None,"process results and the input document afterwards")
prop("C04","Semantic chunking keeps every paragraph",
 "Semantic chunking puts every non-blank paragraph completely into a chunk, in order. A paragraph joins the current chunk only if their combined length stays within the configured size, and a new chunk starts with at most the configured overlap of characters from the end of the previous one.",
 ["inputs","configurations"],"all texts and all chunk sizes and overlaps with 0 <= overlap < chunk size",
 "Dropping a paragraph depends on particular sequences of paragraph lengths.",
 ["processors/chunking.py"],[("semantic chunking","processors/chunking.py")],None,"chunk lists")
prop("R01","Parser selection is sound and prioritised",
 "For any path the parser registry picks, among the registered parsers that declare support for it, one with the highest priority (the first registered of them), never one that does not support it, and fails with the parsing error when there is none; a parser requested by name is used if registered and rejected otherwise. Documents are parsed by the picked parser, and adding or removing a parser does not change the others.",
 ["inputs","configurations","histories"],"all sets and orders of registered parsers and all paths",
 "Selection depends on the whole order of registered parsers and on case and suffix of the path.",
 ["parsers/registry.py","parsers/base.py"],[("selection","parsers/registry.py")],"registered parsers","chosen parser")
prop("B01","Pipeline batches give one result per input in order",
 "Processing a batch of documents yields exactly one result per input in input order; a failing document yields an error result naming it and never affects the results of the others. Each document and text passes through the configured processors in the fixed order clean, chunk, embed, each stage receiving exactly the output of the stage before it.",
 ["inputs","fault_sequences"],"all batches and all subsets of failing documents and failing stages",
 "Any subset of documents may fail; tests try none or one.",
 ["processors/pipeline.py"],[("batch loop","processors/pipeline.py")],None,"batch results")
prop("E01","Embedding cache is transparent",
 "With caching on or off the embedding processor returns the same embedding for the same text, whatever was embedded before; a cached embedding is only returned for the text it was computed from. The i-th embedding belongs to the i-th chunk that has text, and the caller's document is not modified.",
 ["histories","inputs"],"all histories of documents and texts over a deterministic model, caching and normalization on or off",
 "A key collision or reused entry needs particular text pairs or histories.",
 ["processors/embedding.py"],[("cache","processors/embedding.py")],"cache contents","embeddings")
prop("U01","Validators accept exactly the valid inputs",
 "Each validation helper returns without error if and only if its argument satisfies the documented condition (shape, dimension bounds, finiteness, type, range, non-emptiness, uniqueness), and otherwise raises the library's validation error and nothing else.",
 ["inputs"],"all arguments: numeric arrays of any shape and values, and values of wrong types",
 "Accept-iff-valid ranges over all values; boundary and type corners are unbounded.",
 ["utils/validation.py"],[("validators","utils/validation.py")],None,"accept/raise")
prop("U02","Similarity helpers obey their mathematical definition",
 "The similarity and distance helpers return the defined quantity for all vectors of equal length and reject unequal lengths and wrong ranks, they are symmetric, similarity values stay within their documented range, and zero vectors give the documented value. Entry (i, j) of the batch similarity is the similarity of the i-th and j-th vector, and normalizing gives unit norm for every non-zero vector.",
 ["inputs"],"all pairs of real vectors and batches, including zero vectors, real arithmetic",
 "Quantifies over all vectors, including zero vectors and ties.",
 ["utils/similarity.py"],[("pairwise measures","utils/similarity.py")],None,"return values")
prop("U04","Batch manager accounts for every vector in input order",
 "A batch insertion passes every vector with its metadata entry to the client exactly once, in order, in batches of at most the configured size; the ids it returns are exactly those the successful batches produced, in input order, sequentially and in parallel. After a run the reported total, processed and failed numbers describe that run: processed counts the vectors of successful batches, failed those of the others, and together they make the total.",
 ["inputs","fault_sequences","schedules"],"all input sizes, batch sizes >= 1, subsets of failing batches and completion orders of parallel batches, callbacks that do not raise",
 "Completion order and failure subsets are scheduling dependent; the counters go wrong only for some of them.",
 ["utils/batch_manager.py"],[("batch loop","utils/batch_manager.py"),("parallel insertion","utils/batch_manager.py")],"statistics","returned ids and statistics")
prop("F01","Factory and recommendations produce usable set-ups",
 "For every documented index and storage name the factory builds an object of exactly that kind from exactly the configuration it was given, and unknown names are rejected. Recommendations succeed for every vector count, dimension and use case (also unknown ones) and always name a kind the factory accepts, with settings that kind accepts; templates can be overridden by the caller without changing the template.",
 ["configurations","inputs"],"all names, all user configurations and all (count, dimension, priority) recommendations",
 "The space of names, overrides and sizes (thresholds) is only sampled by tests.",
 ["factory.py","configs.py"],[("factory functions","factory.py"),("recommendations","configs.py")],None,"constructed objects and configurations")
prop("V01","The client is a faithful front of its components",
 "Each client operation passes its arguments unchanged to the index and returns the index's answer; before initialization and after close every data operation is rejected with the library's error and reaches no component, and initialization initializes storage before the index.",
 ["histories"],"all histories of initialize, close and data operations over arbitrary components",
 "The guard must hold at every point of every history.",
 ["client.py"],[("delegation and guards","client.py")],"initialization flag","calls received by components")
with open(pathlib.Path(__file__).resolve().parents[1]/"properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
