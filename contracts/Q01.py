"""Q01: quadrature rules are exact on polynomials of their degree; integrals over cells."""
import itertools, math
from fractions import Fraction as Fr
from engine import reals as R
from engine.numeric import Harness, Contract

RULES = [("segment", 1, 1, 1), ("segment", 1, 2, 2), ("triangle", 2, 1, 1), ("triangle", 2, 2, 3), ("triangle", 2, 3, 6), ("triangle", 2, 4, 6),
         ("tetrahedron", 3, 1, 1), ("tetrahedron", 3, 2, 4)]
TOL = Fr(1, 10 ** 13)


def exact(alpha):
    """mean of the monomial over the reference simplex"""
    n = len(alpha)
    r = Fr(math.factorial(n))
    for a in alpha:
        r *= math.factorial(a)
    return r / math.factorial(sum(alpha) + n)


def run(ctx):
    H = Harness(ctx, "quadrature.cc")
    ctx.assume("doubles are read as real numbers (tabulated decimals as written); rules are exact up to 1e-13, the precision of the tabulated points",
               "the number of points of each rule is that of the shipped table or any other: the sums run over the points the rule reports")
    for name, n, r, Q in RULES:
        nout = 1 + (n + 1) * 40

        def post(I, O, n=n, r=r):
            q = O[0]
            if not R.isc(q):
                yield "number of points is a constant", q, R.const(0)
                return
            q = int(q.args[0])
            pts = [O[1 + (n + 1) * i:1 + (n + 1) * (i + 1)] for i in range(q)]
            for alpha in itertools.product(range(r + 1), repeat=n):
                if sum(alpha) > r:
                    continue
                s = R.ZERO
                for w, *x in pts:
                    t = w
                    for xi, a in zip(x, alpha):
                        for _ in range(a):
                            t = t * xi
                    s = s + t
                yield f"mean of the monomial {alpha} over the reference simplex", s, R.const(exact(alpha)), TOL
            for i, (w, *x) in enumerate(pts):
                for d in range(n):
                    yield f"point {i} is interior [{d}]", ">=0", x[d]
                yield f"point {i} is interior [{n}]", ">=0", R.ONE - sum(x, R.ZERO)
        Contract(H, f"rule_{name}_{r}", [], nout, post, where="mito::quadrature::QuadratureRule/QuadratureTable", label=f"{name} rule of degree {r}", partial=True).check()
    from . import sums_spec as SS
    SS.under_contract(ctx, SS.integrals)
