"""Symbolic execution of the repository's Python source (verification condition generation)."""
import ast
import builtins
import time
from fractions import Fraction

import z3

from .core import *
from .core import _dts
from .repo import ClassInfo, Mod, Repo, import_bindings
from . import core


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


_BADOPS = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IMPLIES,
           z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}
_GOODPAT = {}


def good_pattern(e):
    """Terms the solver accepts as a trigger (no interpreted logical structure inside)."""
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in _BADOPS:
                return False
            st.extend(x.children())
    return True


def forall(vs, body, *pats):
    if isinstance(body, bool):
        return z3.BoolVal(body)
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    vs = list(vs)
    if not vs:
        return body
    if pats:
        ps = []
        for p in pats:
            t = list(p) if isinstance(p, (list, tuple)) else [p]
            if all(good_pattern(x) for x in t) and all(any(occurs(v, x) for x in t) for v in vs):
                ps.append(z3.MultiPattern(*t) if len(t) > 1 else t[0])
        if not ps:
            return z3.ForAll(vs, body)
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            return z3.ForAll(vs, body)
    return z3.ForAll(vs, body)


def exists(vs, body, *pats):
    if isinstance(body, bool):
        return z3.BoolVal(body)
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    ps = [p for p in pats if good_pattern(p) and all(occurs(v, p) for v in vs)]
    try:
        return z3.Exists(vs, body, patterns=ps)
    except z3.Z3Exception:
        return z3.Exists(vs, body)


def has_quant(e, _c={}):
    k = e.get_id()
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def AND(*xs):
    out = []
    for x in xs:
        if x is True or (is_z3(x) and z3.is_true(x)):
            continue
        if x is False or (is_z3(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is False or (is_z3(x) and z3.is_false(x)):
            continue
        if x is True or (is_z3(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def ITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x


def zr(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return -INF
        return z3.RealVal(Fraction(repr(x)))
    if is_sort(x, I):
        return z3.ToReal(x)
    if is_sort(x, B):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


class Obligation:
    soft = False

    def __init__(self, name, goal, facts, where, trail):
        self.name, self.goal, self.facts, self.where, self.trail = name, goal, facts, where, trail
        self.status = self.backend = None
        self.time = 0.0
        self.output = ""


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.feas = 0


class ExecBase:
    """State, exploration, facts and solver access."""

    MAXPATHS = 4000
    prop = None
    FEAS_RL = 400000
    PROVE_RL = 3000000
    HOUDINI_RL = 1000000
    MAIN_RL = 40000000

    def __init__(self, repo=None):
        self.repo = repo or Repo()
        self.contracts = {}
        self.skip_contract = set()
        self.ifaces = {}
        self.stats = Stats()
        self.deadline = None
        self.loop_cache = {}
        self.loop_pools = []
        self.hints = {}
        self.inlined = set()
        self.assumed = set()
        self.feas_cache = {}
        self.prove_cache = {}
        self.reset()

    def reset(self):
        self.undo = []
        self.facts = []
        self.factset = set()
        self.nf = 0
        self.trail, self.pos, self.plen, self.pending = [], 0, 0, [[]]
        self.ctx = ()
        self.pure = []
        self.recorders = []
        self.mode = "main"
        self.obls = []
        self.frames = []
        self.excstack = []
        self.decisions = {}
        self.visit = {}
        self.paths = 0
        Val.counter = 1
        Val.registry = {}
        self.st = VObj("$state")

    # ---- undoable writes
    _ABS = object()

    def set(self, owner, key, val):
        old = owner.d.get(key, self._ABS)
        self.undo.append((owner, key, old))
        owner.d[key] = val
        for r in self.recorders:
            if owner.sid < r[0]:
                r[1].setdefault((owner.sid, key), None)

    def unset(self, owner, key):
        old = owner.d.pop(key, self._ABS)
        self.undo.append((owner, key, old))
        for r in self.recorders:
            if owner.sid < r[0]:
                r[1].setdefault((owner.sid, key), None)

    def setattr_u(self, obj, name, val):
        """Undoable change of a python attribute (parent, shared, ref)."""
        self.undo.append((obj, ("$attr", name), getattr(obj, name)))
        setattr(obj, name, val)

    def mark(self):
        return (len(self.undo), len(self.facts), self.nf, Val.counter, len(self.frames), len(self.excstack), dict(self.visit), len(self.pure))

    def rollback(self, m):
        while len(self.undo) > m[0]:
            o, k, v = self.undo.pop()
            if isinstance(k, tuple) and k and k[0] == "$attr":
                setattr(o, k[1], v)
            elif v is self._ABS:
                o.d.pop(k, None)
            else:
                o.d[k] = v
        while len(self.facts) > m[1]:
            self.factset.discard(self.facts.pop().get_id())
        self.nf = m[2]
        Val.counter = m[3]
        del self.frames[m[4]:]
        del self.excstack[m[5]:]
        self.visit = dict(m[6])
        del self.pure[m[7]:]

    # ---- fresh symbols and facts
    def fresh(self, name, sort):
        self.nf += 1
        nm = "%s!%d" % (name, self.nf)
        bv = [v for sc in self.pure for v in sc["vars"]]
        if bv:
            return z3.Function(nm, *([v.sort() for v in bv] + [sort]))(*bv)
        return z3.Const(nm, sort)

    def fact(self, f, raw=False):
        if f is True or f is None:
            return
        if f is False:
            f = z3.BoolVal(False)
        if not raw:
            for sc in reversed(self.pure):
                g = AND(*sc["guards"])
                f = zb(IMP(g, f)) if g is not True else f
                vs = [v for v in sc["vars"]]
                if vs and any(occurs(v, f) for v in vs):
                    f = z3.ForAll(vs, f)
        if z3.is_true(f):
            return
        if f.get_id() in self.factset:
            return
        self.factset.add(f.get_id())
        self.facts.append(f)

    # ---- solver
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit for this function reached")

    def axioms(self):
        return lit_axioms()

    def feasible(self, c):
        """May c hold together with the quantifier-free facts?  (True when unknown)"""
        self.tick()
        fs = [f for f in self.facts if not self.quant(f)]
        key = (tuple(f.get_id() for f in fs), c.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = z3.SimpleSolver()
        s.set("rlimit", self.FEAS_RL)
        s.add(*fs)
        s.add(*self.axioms())
        s.add(c)
        t = time.time()
        r = s.check()
        self.stats.feas += 1
        self.stats.time += time.time() - t
        self.feas_cache[key] = (r != z3.unsat, fs, c)
        return r != z3.unsat

    _q = {}

    def quant(self, f):
        k = f.get_id()
        if k not in self._q:
            self._q[k] = (has_quant(f), f)
        return self._q[k][0]

    def prove(self, goal, rl=None, extra=()):
        """Full proof attempt from the current facts."""
        self.tick()
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if goal.get_id() in self.factset:
            return True
        key = (tuple(f.get_id() for f in self.facts), goal.get_id(), tuple(e.get_id() for e in extra))
        if key in self.prove_cache:
            return self.prove_cache[key][0]
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("rlimit", rl or (self.PROVE_RL if self.mode == "main" else self.HOUDINI_RL))
        s.set("timeout", 15000)
        s.add(*self.axioms())
        s.add(*self.facts)
        s.add(*extra)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        ok = r == z3.unsat
        self.prove_cache[key] = (ok, list(self.facts), goal, extra)
        return ok

    def check(self, name, goal, where="", props=None, soft=False):
        """Record a proof obligation (main mode only), then assume it.
        soft: a proof that is not found counts as undecided (the bounded run stands in), not as failed."""
        if self.prop is not None and props is not None and self.prop not in props:
            return
        self.check_count += 1
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        for sc in reversed(self.pure):
            g = AND(*sc["guards"])
            goal = zb(IMP(g, goal))
            vs = [v for v in sc["vars"] if occurs(v, goal)]
            if vs:
                goal = z3.ForAll(vs, goal)
        if self.mode == "main" and self.pos >= self.plen:
            self.obls.append(Obligation(name, goal, list(self.facts), where, list(self.trail[:self.pos])))
            self.obls[-1].soft = soft
        self.fact(goal, raw=True)

    def later(self):
        """Called where a case cannot be modelled: while a loop is analysed the case is left to the main pass, which goes through the body."""
        if self.mode == "analysis":
            self.check_count += 1
            raise PathEnd()

    def manual(self, name, ok, backend, output, where=""):
        """An obligation decided by complete enumeration instead of a solver."""
        o = Obligation(name, z3.BoolVal(bool(ok)), [], where, [])
        o.status, o.backend, o.output = ("proved" if ok else "failed"), backend, output
        self.check_count += 1
        self.obls.append(o)

    # ---- branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            return self.pure_branch(c)
        n = NOT(c)
        self.same_point(c)
        if self.pos < len(self.trail):
            ch = self.trail[self.pos]
            self.pos += 1
        elif c.get_id() in self.factset:
            ch = True
            self.trail.append(ch)
            self.pos += 1
        elif n.get_id() in self.factset:
            ch = False
            self.trail.append(ch)
            self.pos += 1
        else:
            ft = self.feasible(c)
            ff = self.feasible(n) if ft else True
            if not ft:
                ch = False
            elif not ff:
                ch = True
            else:
                ch = True
                self.pending.append(self.trail[:self.pos] + [False])
            self.trail.append(ch)
            self.pos += 1
        self.fact(c if ch else n)
        return ch

    pforks = ()

    def under_guards(self, g):
        for sc in reversed(self.pure):
            g = zb(IMP(AND(*sc["guards"]), g))
            vs = [v for v in sc["vars"] if occurs(v, g)]
            if vs:
                g = z3.ForAll(vs, g)
        return g

    def pure_branch(self, c):
        """A decision about a bound element: its sides are run one after the other and merged (merge_paths)."""
        p = self.pforks[-1] if self.pforks else None
        if p is None or len(self.pure) != p["depth"] + p["own"]:
            raise NeedFork()
        if p["pos"] < len(p["script"]):
            ch = p["script"][p["pos"]]
        else:
            if self.prove(self.under_guards(c)):
                ch = True
            elif self.prove(self.under_guards(NOT(c))):
                ch = False
            else:
                ch = True
                p["todo"].append(p["script"] + [False])
            p["script"] = p["script"] + [ch]
        p["pos"] += 1
        self.pure.append({"vars": [], "guards": [c if ch else NOT(c)]})
        p["own"] += 1
        return ch

    def merge_paths(self, thunk):
        """The value of a call about a bound element, as a case distinction over the paths of the body."""
        d, res, todo = len(self.pure), [], [[]]
        p = {"depth": d, "todo": todo}
        self.pforks = tuple(self.pforks) + (p,)
        try:
            while todo:
                p.update(script=todo.pop(), pos=0, own=0)
                try:
                    v = thunk()
                    res.append((AND(*[g for sc in self.pure[d:] for g in sc["guards"]]), v))
                except PyRaise:
                    if not self.prove(self.under_guards(z3.BoolVal(False))):
                        raise NeedFork()
                finally:
                    del self.pure[d:]
                if len(res) > 8:
                    raise NeedFork()
        finally:
            self.pforks = self.pforks[:-1]
        if not res:
            raise NeedFork()
        v = res[-1][1]
        try:
            for g, x in reversed(res[:-1]):
                v = self.merge(zb(g), x, v)
        except Unsupported:
            raise NeedFork()
        return v

    def same_point(self, c):
        """A path that is run again must meet the same decisions (the recorded choices mean nothing otherwise)."""
        k = (self.ctx, self.mode, tuple(self.trail[:self.pos]))
        old = self.decisions.setdefault(k, c)
        if old is not c and (isinstance(c, int) or isinstance(old, int) or old.get_id() != c.get_id()):
            if isinstance(c, int) and old == c:
                return
            raise Unsupported("the run of a path diverged from its recorded choices: %s / %s" % (str(old)[:200], str(c)[:200]))

    def choose(self, n=2):
        """Non-deterministic choice (demonic), index 0..n-1."""
        if self.pure:
            raise NeedFork()
        self.same_point(n)
        if self.pos < len(self.trail):
            ch = self.trail[self.pos]
            self.pos += 1
            return ch
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trail[:self.pos] + [k])
        self.trail.append(0)
        self.pos += 1
        return 0

    def explore(self, thunk, label):
        saved = (self.trail, self.pos, self.plen, self.pending, self.ctx)
        self.ctx = self.ctx + ((tuple(self.trail[:self.pos]), label),)
        pending = [[]]
        m = self.mark()
        n = 0
        try:
            while pending:
                pre = pending.pop()
                self.trail, self.pos, self.plen, self.pending = list(pre), 0, len(pre), pending
                n += 1
                self.paths += 1
                if n > self.MAXPATHS:
                    raise Unsupported("too many paths")
                try:
                    thunk()
                    if self.pos < self.plen:
                        raise Unsupported("the run of a path diverged from its recorded choices")
                except PathEnd:
                    pass
                finally:
                    self.rollback(m)
        finally:
            self.trail, self.pos, self.plen, self.pending, self.ctx = saved
        return n

    def need(self, cond, exc, node=None, msg=""):
        """Python raises exc unless cond."""
        if cond is True:
            return
        if self.pure:
            g = zb(cond)
            for sc in reversed(self.pure):
                gg = AND(*sc["guards"])
                g = zb(IMP(gg, g))
                vs = [v for v in sc["vars"] if occurs(v, g)]
                if vs:
                    g = z3.ForAll(vs, g)
            if self.prove(g):
                return
            raise NeedFork()
        if self.branch(cond):
            return
        self.implicit_raise(exc, msg, node)

    def implicit_raise(self, exc, msg="", node=None):
        if self.facts and self.prove(z3.BoolVal(False), rl=700000 if self.mode == "analysis" else None):
            raise PathEnd()
        raise PyRaise(VExc(exc, (msg,)), getattr(node, "lineno", None))


def occurs(v, e):
    st, seen, k = [e], set(), v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == k:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
