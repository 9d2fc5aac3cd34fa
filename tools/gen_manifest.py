"""Writes MANIFEST.json; CLAIMED lists the properties that have a check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "S": ["S01", "S02", "S03", "S04", "S05"],
    "I": ["I01", "I02", "I03", "I04", "I05", "I06", "I07", "I08"],
    "V": ["V01"],
    "R": ["R01"],
    "B": ["B01"],
    "E": ["E01"],
    "C": ["C01", "C02", "C03", "C04"],
    "U": ["U01", "U02", "U04"],
    "F": ["F01"],
    "P": ["P01", "P02", "P03"],
    "Q": ["Q01", "Q02", "Q03", "Q04", "Q05"],
}
TECH = "contract-based deductive verification of the real source (symbolic execution per function, class invariants, Houdini loop invariants, z3/cvc5)"
NOTE = {
    "S": "Proved for all inputs, ids and states: each public method of the memory, disk and hybrid backends, run symbolically from its current source from an arbitrary state satisfying the class invariant, refines the abstract map operation; hybrid uses the tiers' contracts. Trusted: file system / numpy / pickle contracts, path model, the codec meta-rule (each code point enumerated on the real functions). Integers mathematical. A short concrete run is a labelled bounded cross-check.",
    "I": "Proved for all states and inputs: each public method of the index, run symbolically from its current source from an arbitrary state satisfying the class invariant against the abstract storage contract, re-establishes the invariant and its answer satisfies the property. Trusted: numpy and scikit-learn contracts, fresh uuids, one dimension for all vectors, reals for floats. A short concrete run is a labelled bounded cross-check.",
    "R": "Proved for all registered parser lists, paths and hints: initialize, get_parser, parse_document, add_parser and remove_parser, run symbolically from their current source with abstract parsers, return the first parser that accepts, in priority order. Initialization registers only initialized parsers of the named class. Trusted: the verifier's Python semantics. A short concrete run is a labelled bounded cross-check.",
    "B": "Proved for all inputs, batch lengths and configurations: the pipeline's methods, run symbolically from their current source with abstract stages that may fail, give one result per document, at the document's position, and pass each stage's output to the next. Trusted: the verifier's Python semantics. A short concrete run is a labelled bounded cross-check.",
    "E": "Proved for all texts and cache states: the embedding processor's cached path and batch processing, run symbolically from its current source, returns the model's normalised vector whether or not the text was cached, and a caller's writes do not reach the cache. Trusted: digest without collisions, the model a function of the text. One width for all embeddings of a batch. A short concrete run is a labelled bounded cross-check.",
    "C": "Proved for all texts, sizes and overlaps: the chunkers, run symbolically from their current source with inferred loop invariants and termination measures, cover the text as stated. Trusted: contracts of str operations. C04: that overlap text is the end of the previous chunk, and the exact joining bound per paragraph, are only checked by the bounded run (the proof gives paragraphs kept, their order and a bound on chunk length). Bounded cross-check: a short concrete run.",
    "U": "Proved for all inputs: each helper, run symbolically from its current source, satisfies its stated condition or defined quantity. Trusted: numpy contracts (entries are reals; NaN and infinity as predicates of the entries), Cauchy-Schwarz. A short concrete run is a labelled bounded cross-check.",
    "U04": "Proved for all batch sizes, vector counts and failure patterns: batch_insert, parallel_batch_insert and get_stats, run symbolically from their current source with an abstract client that may fail; the executor by contract (each task once, in any order, one at a time). Assumed: callbacks do not raise, one metadata entry per vector.",
    "F": "Proved for all names, configurations, vector counts, dimensions and use cases: factory functions and recommendations, run symbolically from their current source with logging component constructors. Trusted: the verifier's Python semantics. A short concrete run is a labelled bounded cross-check.",
    "P": "Proved for all paths, saved values and directory states: save and load of both managers, run symbolically from their current source over a map from paths to contents, with pickling that may fail; incremental: checkpoint numbering, newest checkpoint, log and marker from an arbitrary state satisfying the invariant, restart with the bookkeeping file lost or unreadable. Trusted: pickle, npz and json round trips, no I/O errors, path join one-to-one. A short concrete run is a labelled bounded cross-check.",
    "Q": "Proved for all data, sizes and configurations over the reals: training, coding, decoding and distance methods of the quantizers, run symbolically from their current source; SAQ's segment quantizers, segmentation (dynamic programme and back-tracking included) and code adjustment each against a contract used by their callers; frame conditions for every call, search_with_rescoring included. Integer widths are obligations. Trusted: numpy, KMeans, StandardScaler by contract; float rounding ignored. A short concrete run is a labelled bounded cross-check.",
    "V": "Proved for all inputs and client states: each client method, run symbolically from its current source with abstract components that log the calls they receive and may fail, passes its arguments unchanged to the index exactly once, returns its answer, refuses uninitialized use without touching a component, and initializes storage before the index. Trusted: the verifier's Python semantics. A short concrete run is a labelled bounded cross-check.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
claimed = [p for v in CLAIMED.values() for p in v]
checks = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                       "technique": TECH, "level": "proof", "level_note": NOTE.get(i) or NOTE[i[0]]})
na = [{"property": p["id"], "reason": "contracts for this property are not built yet"} for p in props if p["id"] not in claimed]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the verifier reads /repo/src directly. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
