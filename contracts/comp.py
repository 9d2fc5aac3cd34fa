"""Abstract components with a log of the calls they receive (V01, U04, R01, B01)."""
from .common import *


def comp_setup(ex):
    setup(ex)
    ex.log = VObj("$log", {"calls": ()})
    ex.ifaces["Comp"] = comp_attr
    ex.ifaces["answer"] = answer_attr


def comp(ex, name, attrs=()):
    return VObj("Comp", {"$name": name})


def answer_attr(ex, v, name, node):
    raise Unsupported("attribute %s of a component's answer" % name)


def comp_attr(ex, o, name, node):
    def run(e, args, kw, n):
        if e.pure:
            raise NeedFork()
        fails = e.choose(2) == 1
        a = VOpaque(e.fresh("answer", Obj), "answer")
        e.set(e.log, "calls", e.log.d["calls"] + ((o.d["$name"], name, tuple(args), tuple(sorted(kw.items())), None if fails else a),))
        if fails:
            raise PyRaise(VExc("Exception", ("component failed",)), None)
        return a
    return VPy(run, name)


def calls(ex):
    return ex.log.d["calls"]


def same_arg(ex, a, b):
    """Is the argument received the one that was given (same object, or equal content)?"""
    if a is b:
        return True
    if isinstance(a, VOpt) and isinstance(b, VOpt):
        return z3.And(zb(a.isnone) == zb(b.isnone), IMP(NOT(b.isnone), same_arg(ex, a.value, b.value)))
    if isinstance(b, VOpt) and a is None:
        return zb(b.isnone)
    if isinstance(b, VOpt):
        return z3.And(NOT(b.isnone), zb(same_arg(ex, a, b.value)))
    if isinstance(a, VOpt):
        return z3.And(NOT(a.isnone), zb(same_arg(ex, a.value, b)))
    if isinstance(a, VArr) and isinstance(b, VArr):
        return content_vec(ex, a) == content_vec(ex, b)
    if isinstance(a, VMeta) and isinstance(b, VMeta):
        return content_meta(ex, a) == content_meta(ex, b)
    if isinstance(a, VOpaque) and isinstance(b, VOpaque):
        return a.term == b.term
    if a is None or b is None or isinstance(a, (VArr, VMeta)) or isinstance(b, (VArr, VMeta)):
        return False
    if isinstance(a, VList) and isinstance(b, VList):
        sa, sb = ex.lst(a), ex.lst(b)
        if sa is sb:
            return True
        if sa[0] == "s" and sb[0] == "s" and sa[3] == sb[3]:
            j = z3.Int("j!sa")
            return z3.And(zi(sa[1]) == zi(sb[1]), forall(j, IMP(z3.And(0 <= j, j < zi(sb[1])), sa[2](j) == sb[2](j)), sb[2](j)))
        raise Unsupported("comparison of lists")
    try:
        return zb(ex.eq(a, b))
    except Unsupported:
        raise


def bind(names, args, kw):
    """Arguments by parameter name."""
    d = dict(zip(names, args))
    d.update(dict(kw))
    return d


def passed(ex, entry, name, names, given):
    """The logged call is name(**given)."""
    if entry[1] != name or len(entry[2]) > len(names):
        return z3.BoolVal(False)
    d = bind(names, entry[2], entry[3])
    if set(d) - set(given):
        return z3.BoolVal(False)
    return z3.And(*[zb(same_arg(ex, d.get(k), v)) for k, v in given.items()])


def classname_attr(ex, v, name):
    if name == "__class__":
        return VOpaque(ex.fresh("cls", Obj), "pyclass")
    return None


_plain_comp, _plain_answer = comp_attr, answer_attr


def named_attrs(ex):
    """Components and answers may be asked for their class name."""
    def c(e, o, name, node):
        return classname_attr(e, o, name) or _plain_comp(e, o, name, node)

    def a(e, v, name, node):
        return classname_attr(e, v, name) or _plain_answer(e, v, name, node)

    def k(e, v, name, node):
        if name in ("__name__", "__qualname__"):
            return e.fresh("clsname", Str)
        raise Unsupported("class attribute " + name)
    ex.ifaces["Comp"], ex.ifaces["answer"], ex.ifaces["pyclass"] = c, a, k
