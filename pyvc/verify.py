"""Running contract units: exploration, discharge of obligations, result records."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import subprocess
import sys
import time
import traceback
import z3

from .arrays import Exec
from .core import Unsupported, PyRaise
from .interp import Obligation

CVC5 = "/usr/bin/cvc5" if os.path.exists("/usr/bin/cvc5") else "cvc5"
UNITS = {}


class Unit:
    def __init__(self, name, props, fn, deadline, group):
        self.name, self.props, self.fn, self.deadline, self.group = name, props, fn, deadline, group


def unit(name, props, deadline=240, group=None):
    def dec(fn):
        UNITS[name] = Unit(name, tuple(props.split()), fn, deadline, group)
        return fn
    return dec


def load_contracts():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)
    return UNITS


def smt2(facts, goal):
    s = z3.Solver()
    s.add(*facts)
    s.add(z3.Not(goal))
    return s.to_smt2()


def run_cvc5(text, limit):
    text = re.sub(r"^; .*\n", "", text)
    try:
        p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % (limit * 1000), "-q"], input="(set-logic ALL)\n" + text,
                           capture_output=True, text=True, timeout=limit + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        return "unknown"


def discharge(ex, ob, budget):
    """Decide one obligation; returns True when proved."""
    t0 = time.time()
    facts = ex.axioms() + ob.facts
    last = ""
    for cfg, rl in (("z3/ematching", 4000000), ("z3/ematching+prep", 4000000), ("z3/mbqi", 4000000), ("z3/ematching", 40000000), ("cvc5", 0),
                    ("z3/ematching+prep", 30000000), ("z3/mbqi", 40000000)):
        if time.time() - t0 > budget:
            break
        if cfg == "cvc5":
            if os.environ.get("PYVC_NOCVC5"):
                continue
            r = run_cvc5(smt2(facts, ob.goal), min(20, budget))
            if r == "unsat":
                ob.status, ob.backend = "proved", "cvc5"
                break
            last = "cvc5: " + r
            continue
        s = z3.SimpleSolver() if cfg == "z3/ematching" else z3.Solver()
        s.set("rlimit", rl)
        s.set("timeout", int(budget * 1000))
        if cfg.startswith("z3/ematching"):
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
        s.add(*facts)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = "proved", cfg
            break
        if r == z3.sat:
            last = cfg + ": sat\n" + str(s.model())[:6000]
            ob.status = "failed"
            ob.output = last
            break
        last = cfg + ": " + s.reason_unknown()
    if ob.status is None:
        ob.status = "undecided" if ob.soft else "failed"
        ob.output = last
    ob.time = time.time() - t0
    ex.stats.time += ob.time
    return ob.status == "proved"


def run_unit(name, prop=None, verbose=False):
    u = UNITS[name]
    t0 = time.time()
    ex = Exec()
    ex.prop = prop
    ex.deadline = t0 + u.deadline
    ex.reached = 0
    res = {"unit": name, "obligations": [], "error": None, "status": "ok"}
    try:
        u.fn(ex)
    except Unsupported as e:
        res["status"], res["error"] = "unsupported", str(e)
        if verbose:
            traceback.print_exc()
    except RecursionError as e:
        res["status"], res["error"] = "unsupported", "recursion limit"
    except (PyRaise, Exception) as e:
        res["status"], res["error"] = "unsupported", "verifier failure: %s" % "".join(traceback.format_exception(e))[-900:]
    t1 = time.time()
    fails = 0
    if res["status"] == "ok" or verbose:
        seen = {}
        for ob in ex.obls:
            key = (ob.name, ob.goal.get_id(), tuple(f.get_id() for f in ob.facts))
            if ob.status is not None:
                pass
            elif key in seen:
                o = seen[key]
                ob.status, ob.backend, ob.output, ob.time = o.status, o.backend, o.output, 0
            else:
                seen[key] = ob
                left = u.deadline * 1.5 - (time.time() - t0)
                if left < 0 or fails > 8:
                    ob.status, ob.output = "failed" if fails else "timeout", "not attempted (time limit)" if not fails else "not attempted after earlier failures"
                else:
                    discharge(ex, ob, max(5, min(60, left)) if not fails else 6)
            if ob.status != "proved" and not ob.soft:
                fails += 1
            res["obligations"].append({"name": ob.name, "where": ob.where, "status": ob.status, "backend": ob.backend,
                                       "time": round(ob.time, 3), "output": ob.output})
            if verbose and ob.status != "proved":
                print("FAILED", ob.name, ob.where, ob.output[:verbose * 1000 if isinstance(verbose, int) else 300], ob.trail)
                if verbose is not True and verbose >= 2:
                    print("  GOAL", ob.goal)
    if res["status"] == "ok" and not ex.obls:
        res["status"], res["error"] = "unsupported", "no obligation generated"
    if res["status"] == "ok" and not ex.reached:
        res["status"], res["error"] = "unsupported", "no end of the function is reachable (vacuous contract)"
    res.update(inlined=sorted(ex.inlined), contracts=sorted(ex.assumed), queries=ex.stats.queries, feas=ex.stats.feas, paths=ex.paths,
               solver_s=round(ex.stats.time, 2), gen_s=round(t1 - t0, 2), wall_s=round(time.time() - t0, 2))
    return res


def _work(a):
    name, prop = a
    sys.setrecursionlimit(20000)
    try:
        return run_unit(name, prop)
    except Exception as e:
        return {"unit": name, "obligations": [], "status": "unsupported", "error": "verifier failure: %r" % e, "inlined": [], "contracts": [],
                "queries": 0, "feas": 0, "paths": 0, "solver_s": 0, "gen_s": 0, "wall_s": 0}


def run_units(names, prop=None, jobs=8):
    if not names:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(jobs, len(names)), maxtasksperchild=1) as pool:
        return pool.map(_work, [(n, prop) for n in names], chunksize=1)


def main(argv):
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
    load_contracts()
    sys.setrecursionlimit(20000)
    pats = argv or [""]
    verbose = int(os.environ.get("V", "1"))
    names = [n for n in UNITS if any(re.search(p, n) for p in pats)]
    if len(names) > 1:
        rs = run_units(names, os.environ.get("PROP"))
    else:
        rs = [run_unit(n, os.environ.get("PROP"), verbose) for n in names]
    for r in rs:
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print("%-52s %-11s obl=%d failed=%d paths=%d q=%d/%d gen=%.1f wall=%.1f %s" % (
            r["unit"], r["status"], len(r["obligations"]), len(bad), r["paths"], r["queries"], r["feas"], r["gen_s"], r["wall_s"], (r["error"] or "")[:700]))
        slow = sorted(r["obligations"], key=lambda o: -o["time"])[:3]
        if verbose and slow and slow[0]["time"] > 3:
            print("     slow: " + "; ".join("%s %.1fs %s" % (o["name"], o["time"], o["backend"]) for o in slow))
        for o in bad[:6]:
            print("     FAILED %s %s %s" % (o["name"], o["where"], o["output"][:100].replace("\n", " ")))


if __name__ == "__main__":
    from pyvc import verify
    verify.main(sys.argv[1:])
