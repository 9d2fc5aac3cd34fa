"""hrun.py SECONDS PROP...: run the concrete harness of properties in parallel and print the outcome."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import call
s = float(sys.argv[1]); seed = int(os.environ.get("SEED", "1"))
hs = [(p, call.start([p, seed, s], s * 4 + 120)) for p in sys.argv[2:]]
for p, h in hs:
    r = call.finish(h)
    print(p, r.get("evaluations"), r.get("cases"), r.get("error") or "")
    for f in r.get("failures", []):
        print("   FAIL", f["case"], f["n"], f["what"], f["detail"]); print("     ", "\n      ".join(f["history"][-8:]))
