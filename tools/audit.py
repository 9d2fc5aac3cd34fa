"""audit.py [UNIT-REGEX]: are the assumptions of the proofs consistent?
For every unit: (1) the axioms (quantified facts without path symbols) and (2) up to N fact sets of whole paths must not be refutable
by any of the back ends used for proofs.  An inconsistent axiom would make every obligation provable."""
import multiprocessing, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import z3
from pyvc import verify
verify.load_contracts()


def consts(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def refute(fs, rl=40000000):
    for cfg in ("e", "prep", "mbqi"):
        s = z3.SimpleSolver() if cfg == "e" else z3.Solver()
        s.set("rlimit", rl)
        s.set("timeout", 40000)
        if cfg != "mbqi":
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
        s.add(*fs)
        if s.check() == z3.unsat:
            return cfg
    if verify.run_cvc5(verify.smt2(fs, z3.BoolVal(False)), 10) == "unsat":
        return "cvc5"
    return None


def minimize(fs, cfg):
    ps = [z3.Bool("p!%d" % i) for i in range(len(fs))]
    s = z3.Solver()
    s.set("timeout", 40000)
    if cfg in ("e", "prep"):
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
    for p, f in zip(ps, fs):
        s.add(z3.Implies(p, f))
    if s.check(*ps) != z3.unsat:
        return ["(no core)"]
    core = {str(c) for c in s.unsat_core()}
    return [str(f).replace("\n", " ")[:300] for p, f in zip(ps, fs) if str(p) in core]


def one(name):
    u = verify.UNITS[name]
    ex = verify.Exec()
    ex.prop = None
    import time
    ex.deadline = time.time() + u.deadline * 2
    ex.reached = 0
    try:
        u.fn(ex)
    except Exception as e:
        return name, "not run: %r" % e, []
    out = []
    ax, seen = {}, set()
    for a in ex.axioms():
        ax[a.get_id()] = a
    for ob in ex.obls:
        for f in ob.facts:
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_quantifier(f) and not any("!" in c or c.endswith("0") for c in consts(f, set(), set())):
                ax[f.get_id()] = f
    r = refute(list(ax.values()))
    if r:
        out.append(("AXIOMS", r, minimize(list(ax.values()), r)))
    # whole paths: the last obligation of each path
    last = {}
    for ob in ex.obls:
        last[tuple(ob.trail)] = ob
    obs = sorted(last.values(), key=lambda o: -len(o.facts))
    n = int(os.environ.get("N", "4"))
    pick = obs[::max(1, len(obs) // n)][:n]
    bad = 0
    for ob in pick:
        fs = ex.axioms() + ob.facts
        r = refute(fs, 20000000)
        if r:
            bad += 1
            out.append(("PATH %s" % ob.name, r, minimize(fs, r)))
    return name, "axioms %d, paths %d/%d refuted" % (len(ax), bad, len(pick)), out


names = [n for n in verify.UNITS if re.search(sys.argv[1] if len(sys.argv) > 1 else ".", n)]
with multiprocessing.Pool(int(os.environ.get("J", "7")), maxtasksperchild=1) as p:
    for name, msg, out in p.imap_unordered(one, names, chunksize=1):
        print(name, msg, flush=True)
        for kind, r, core in out:
            print("    ", kind, r)
            for c in core:
                print("         ", c)
