"""opaque differentiable functions (harness/opaque.h): symbolic, numeric and derivative"""
import math
from . import reals as R


def opq(id, comp, order, x0, x1=R.ZERO, x2=R.ZERO):
    return R._mk("opq", int(id), int(comp), int(order), R.lift(x0), R.lift(x1), R.lift(x2))


def install(ex):
    def h(ex, st, a, I):
        return opq(*a[:3], *[x if isinstance(x, R.Node) else R.lift(x) for x in a[3:]])
    ex.handlers["opq"] = h


def setup(ex, st):
    install(ex)


def dufn(n, k):
    """derivative of an opaque application with respect to its k-th argument"""
    if n.op != "opq":
        raise ValueError("cannot differentiate " + n.op)
    return R._mk("opq", n.args[0], n.args[1], n.args[2] + 10 ** (k - 3), *n.args[3:])


def value(id, comp, order, x0, x1, x2):
    w0, w1, w2 = 0.7 + 0.11 * id + 0.05 * comp, 0.4 - 0.07 * id + 0.13 * comp, 0.3 + 0.09 * id - 0.06 * comp
    o0, o1, o2 = order % 10, order // 10 % 10, order // 100 % 10
    n = o0 + o1 + o2
    ph = 0.3 * id + 0.5 * comp + w0 * x0 + w1 * x1 + w2 * x2
    v = math.sin(ph + n * math.pi / 2) * w0 ** o0 * w1 ** o1 * w2 ** o2
    return 2 + v if n == 0 else v


def ufn(n, a):
    if n.op != "opq":
        raise ValueError(n.op)
    return value(n.args[0], n.args[1], n.args[2], *[float(x) for x in a])


def D(e, x):
    return R.diff(e, x, dufn)
