#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on /repo's current source.

1. every contract unit of the property is regenerated from the source and discharged (pyvc);
2. the concrete harness runs the real code for a short time (labelled bounded);
3. a failed obligation is replayed: the harness searches a failing input of the real code.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import call
from pyvc import verify
from assumptions import TRUSTED, trusted_for


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:") and "property=%s " % prop in line:
                key = line.split("match=", 1)[1].split("|")[0].strip() if "match=" in line else None
                out.append((key, line.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deep = tier == "thorough"
    secs = float(os.environ.get("PYVC_HARNESS_S", "150" if deep else "15"))
    h = call.start([prop, seed, secs], secs * 4 + 120)
    extra = [call.start([prop, seed + 100 * i, secs], secs * 4 + 120) for i in range(1, 4)] if deep else []
    verify.load_contracts()
    names = [n for n, u in verify.UNITS.items() if prop in u.props]
    if deep:
        for n in names:
            verify.UNITS[n].deadline *= 3
    results = verify.run_units(names, prop, jobs=7)
    hr = call.finish(h)
    runs = [hr] + [call.finish(x) for x in extra]
    t1 = time.time()
    obls = [(r["unit"], o) for r in results for o in r["obligations"]]
    proved = [x for x in obls if x[1]["status"] == "proved"]
    failed = [x for x in obls if x[1]["status"] == "failed"]
    undecided = [x for x in obls if x[1]["status"] not in ("proved", "failed")]
    unsupported = [r for r in results if r["status"] != "ok"]
    fails = [f for r in runs for f in r.get("failures", [])]
    # a replay search for failed or undecided obligations
    replay_runs = []
    if (failed or unsupported or undecided) and not fails:
        budget = 90 if failed else 25
        if deep:
            budget *= 3
        hs = [call.start([prop, seed + 1000 + i, budget], budget * 3 + 60) for i in range(6)]
        replay_runs = [call.finish(x) for x in hs]
        fails += [f for r in replay_runs for f in r.get("failures", [])]
    kn = known(prop)
    fresh, hit = [], set()
    for f in fails:
        k = [line for key, line in kn if key and key in f["case"] + ": " + f["what"]]
        if k:
            hit.update(k)
        else:
            fresh.append(f)
    for _, line in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, line.split("|", 1)[1].strip() if "|" in line else line))
    errs = [r["error"] for r in runs + replay_runs if r.get("error")]
    violation = bool(fresh or (failed and not hit))
    backends = {}
    for _, o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    inl = sorted({q for r in results for q in r["inlined"]})
    cons = sorted({q for r in results for q in r["contracts"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if names else "other",
        "coverage": {
            "obligations": len(obls), "discharged": len(proved), "checker_cmd": "python3-vt /verif/check.py %s" % prop,
            "trusted_base": TRUSTED + trusted_for(prop, cons),
            "units": [{"unit": r["unit"], "status": r["status"], "obligations": len(r["obligations"]), "paths": r["paths"],
                       "solver_s": r["solver_s"], "wall_s": r["wall_s"], "note": r["error"]} for r in results],
            "functions_verified_from_source": inl, "callees_by_contract": cons, "discharged_by": backends,
            "solver_s": round(sum(r["solver_s"] for r in results), 2), "generator_s": round(sum(r["gen_s"] for r in results), 2),
            "feasibility_queries": sum(r["queries"] + r["feas"] for r in results),
            "undecided": [{"unit": u, "obligation": o["name"], "why": o["output"][:200]} for u, o in undecided] +
                         [{"unit": r["unit"], "why": r["error"]} for r in unsupported],
            "failed": [{"unit": u, "obligation": o["name"], "where": o["where"]} for u, o in failed],
            "bounded_cross_check": {"label": "bounded, not counted as proved", "evaluations": sum(r.get("evaluations", 0) for r in runs + replay_runs),
                                    "cases": hr.get("cases", {}), "errors": errs},
            "explanation": "obligations of the contract units, regenerated from the current source and discharged by SMT on this run",
        },
        "assumptions": trusted_for(prop, cons),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh) + (1 if failed and not fresh else 0) if violation else 0,
    }
    if not names:
        ev["coverage"]["evaluations"] = ev["coverage"]["bounded_cross_check"]["evaluations"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d units (%d undecided units), harness %d cases, %.1f s" % (
        prop, len(proved), len(obls), len(results), len(unsupported), ev["coverage"]["bounded_cross_check"]["evaluations"], time.time() - t0))
    for r in unsupported:
        print("  UNDECIDED unit %s: %s (bounded stand-in: harness)" % (r["unit"], (r["error"] or "")[:300]))
    for u, o in undecided:
        print("  UNDECIDED obligation %s / %s: %s" % (u, o["name"], o["output"][:100]))
    for e in errs:
        print("  harness error: " + e[:600])
    for u, o in failed[:10]:
        print("  FAILED obligation %s / %s %s" % (u, o["name"], o["where"]))
    for f in fresh[:3]:
        print("  FAILING INPUT %s #%d: %s %s" % (f["case"], f["n"], f["what"], f["detail"]))
    if violation:
        path = os.path.join(HERE, "evidence", prop + ".replay.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "failing_input": fresh[0] if fresh else None,
                       "replay_cmd": "python3 %s/replay.py %s" % (HERE, path),
                       "failed_obligations": [{"unit": u, "name": o["name"], "where": o["where"], "output": o["output"][:8000]} for u, o in failed[:20]]}, f, indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fresh else " no-failing-input-found"))
        sys.stdout.flush()
        os._exit(1)
    if errs and not any(r.get("evaluations") for r in runs):
        # the real code could not be run at all
        if any("import:" in e for e in errs):
            path = os.path.join(HERE, "evidence", prop + ".replay.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "failing_input": {"what": "the library cannot be imported", "error": errs}}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            os._exit(1)
        print("harness could not run")
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


main()
