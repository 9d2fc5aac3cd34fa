"""What is trusted; written to the evidence of every run."""
TRUSTED = [
    "pyvc (/verif/pyvc): symbolic executor for the Python subset, its library contracts and its meta-rules",
    "z3 5.3 (python API), cvc5 1.1 (fallback)",
    "CPython 3.12 language semantics as modelled by pyvc; no asynchronous exceptions, no MemoryError, no recursion limit",
    "integers are mathematical (Python ints); floats are mathematical reals except where the unit says otherwise",
    "single-threaded execution between lock acquisition and release (locks are modelled as no-ops)",
]
AREA = {
    "S": ["numpy copy/astype/save/load keep shape and contents; np.save/np.load and pickle dump/load round-trip",
          "file system: exists/open/unlink/glob/mkdir act on a map from paths to contents; no external writer, no I/O error",
          "path join is injective in the file name; no symbolic links inside the data directory",
          "metadata dictionaries are compared as values; isolation is proved for top-level entries (shallow copies)",
          "pigeonhole: a list of n distinct live ids with n = number of live ids lists every live id",
          "file-name codec: letter-wise rule for ''.join over the characters and for re.sub with a prefix code (meta-rule, each code point evaluated exhaustively on the real function)"],
    "I": ["uuid4 returns ids never used before", "numpy/sklearn primitives by contract (shape and value functions)",
          "the storage behind an index obeys the abstract storage contract proved for S01-S05"],
    "Q": ["numpy element-wise and axis operations by contract over the reals; a sum is a function of its terms, |x-c|^2 = |x|^2 + |c|^2 - 2 x.c",
          "KMeans returns n_clusters centroids of the input dimension; StandardScaler a per-component affine map with positive scale",
          "scalar bits 1..16; at most 65536 product centroids and 2^31-1 segment centroids; inputs have the trained dimension, decoded codes are valid",
          "infinity in the segmentation table is a number above 1 that absorbs sums; sums of finite costs stay below it",
          "the squared distance in the SAQ proofs is named per segment, row and centroid"],
    "P": ["pickle, npz and json round-trip; pickling may fail, then nothing is written by pickle.dumps; an empty file is none of them",
          "file system: a map from paths to contents, no I/O error, no second manager writing to the directory at the same time",
          "joining is a function of directory and name, one-to-one on plain file names; two spellings that give the same joined path are the same path",
          "checkpoint_*.pkl files of the directory are the manager's own (checkpoint_<number>.pkl); log lines are whole entries; a bookkeeping file that parses was written by a manager",
          "a line appended to a log of whole lines leaves the earlier lines", "datetime values are opaque; operation numbers non-negative integers"],
    "C": ["str.strip, rfind, split, slicing, concatenation and len by contract (trimmed text is empty exactly when every character is blank; containment of texts under concatenation and trimming)", "PDF and Office text extraction libraries are outside"],
    "R": ["parser components by their abstract interface"],
    "B": ["processors by their abstract interface"],
    "E": ["embedding model is a function of the text", "md5 digests of different texts differ (collision freedom)"],
    "U": ["numpy reductions by contract over the reals: sums monotone in the entries, Cauchy-Schwarz, norm zero exactly for the zero vector",
          "NaN and infinity are predicates of the entries (U01 only), floats otherwise reals", "executor: each submitted task runs exactly once, in any order, as one step; as_completed yields each future once; exception objects are truthy", "the client of the batch manager is any object whose insert either returns ids or raises"],
    "F": ["component classes by name and constructor arguments"],
    "V": ["index and storage by their abstract interface"],
}


def trusted_for(prop, contracts=()):
    return AREA.get(prop[0], [])
