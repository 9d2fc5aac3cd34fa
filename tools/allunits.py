"""allunits.py [PROPS]: the units of every property, proof only; prints what is not clean."""
import json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from pyvc import verify
verify.load_contracts()
props = sys.argv[1:] or [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
for p in props:
    t0 = time.time()
    names = [n for n, u in verify.UNITS.items() if p in u.props]
    rs = verify.run_units(names, p, jobs=7)
    n = sum(len(r["obligations"]) for r in rs)
    bad = [(r["unit"], (r["error"] or "")[:150]) for r in rs if r["status"] != "ok"] + [(r["unit"], o["name"], o["status"], o["where"]) for r in rs for o in r["obligations"] if o["status"] != "proved"]
    print("%s %d units %d obligations %.0fs %s" % (p, len(names), n, time.time() - t0, "ok" if not bad else bad[:6]), flush=True)
os._exit(0)
