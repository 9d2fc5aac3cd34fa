"""codec.py SCRATCH: evaluate the real _sanitize_id/_restore_id on every code point (complete enumeration)."""
import json
import os
import re
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VALORI_SRC_DIR", "/repo/src"))
import core
core.contain(sys.argv[1])
from valori.storage.disk import DiskStorage
st = DiskStorage.__new__(DiskStorage)
unit = re.compile("%[0-9a-f]{6}", re.S)
bad, n = [], 0
for cp in range(0x110000):
    c = chr(cp)
    e = st._sanitize_id(c)
    ok = isinstance(e, str) and ((e == c and c not in "%/\0") or unit.fullmatch(e)) and st._restore_id(e) == c
    n += 1
    if not ok and len(bad) < 5:
        bad.append([cp, repr(e)])
print(json.dumps({"n": n, "bad": bad, "empty": st._sanitize_id("") == ""}))
