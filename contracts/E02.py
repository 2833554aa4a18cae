"""E02: elementary mass, stiffness, source and norm contributions are quadratures of the integrands."""
from fractions import Fraction as Fr
from engine import reals as R, opaque
from engine.opaque import opq
from engine.numeric import Harness, Contract
from .geometry_spec import det, dot
from .fem_spec import SEG1, TRI1, TRI2, half

ELEMS = {"seg1": SEG1, "tri1": TRI1, "tri2": TRI2}
CASES = [("seg1", 1), ("seg1", 2), ("tri1", 1), ("tri1", 2), ("tri2", 2), ("tri2", 4)]
PTS = {}


def rule(ctx, name, r):
    """points and weights of the shipped rule, read out of the code under verification (they are under
    contract in Q01)"""
    key = (name, r)
    if key not in PTS:
        H = RULES[0]
        n = {"segment": 1, "triangle": 2}[name]
        p = H.execute(f"rule_{name}_{r}", [], 1 + (n + 1) * 40)[0].out
        q = int(p[0].args[0])
        PTS[key] = [(p[1 + (n + 1) * i], p[2 + (n + 1) * i:2 + n + (n + 1) * i]) for i in range(q)]
    return PTS[key]


RULES = []


def run(ctx):
    H = Harness(ctx, "fem.cc")
    H.setup = opaque.setup
    RULES[:] = [Harness(ctx, "quadrature.cc")]
    PTS.clear()
    ctx.assume("doubles are read as real numbers",
               "contract on CoordinateSystem::coordinates: it returns the coordinates the point was placed at",
               "positively oriented or not: the factor of an element is its signed jacobian, as in the code's documentation",
               "source fields and functions are opaque: the result holds for every field")
    for en, r in CASES:
        E = ELEMS[en]
        N, D = E.N, E.D
        _, bp = E.box()
        ref = R.ONE if D == 1 else half
        Q = rule(ctx, "segment" if D == 1 else "triangle", r)

        def quad(I, f, E=E, Q=Q, ref=ref):
            J = det(E.jacobian(I))
            return sum((ref * w * J * f(xi) for w, xi in Q), R.ZERO)

        def post(I, O, E=E, N=N, quad=quad):
            M = [O[a * N:(a + 1) * N] for a in range(N)]
            K = [O[N * N + a * N:N * N + (a + 1) * N] for a in range(N)]
            for a in range(N):
                for b in range(N):
                    yield f"mass [{a}{b}]", M[a][b], quad(I, lambda xi: E.phi(xi)[a] * E.phi(xi)[b])
            for a in range(N):
                for b in range(N):
                    yield f"stiffness [{a}{b}]", K[a][b], quad(I, lambda xi: dot(E.gradients(I, xi)[a], E.gradients(I, xi)[b]))
            for a in range(N):
                for b in range(a):
                    yield f"mass is symmetric [{a}{b}]", M[a][b], M[b][a]
                    yield f"stiffness is symmetric [{a}{b}]", K[a][b], K[b][a]
                yield f"constants are in the kernel of the stiffness [{a}]", sum(K[a], R.ZERO), R.ZERO
        where = f"mito::fem::blocks (element {en})"
        tol = Fr(1, 10 ** 12)
        Contract(H, f"matrices_{en}_{r}", bp, 2 * N * N, post, requires=E.requires, tol=tol, ufn=opaque.ufn, where=where, label=f"matrices of {en}, rule {r}").check()

        def postn(I, O, E=E, quad=quad):
            f = lambda i, k, xi: opq(i, k, 0, *xi)
            yield "norm of a scalar", O[0], quad(I, lambda xi: f(1, 0, xi) * f(1, 0, xi))
            yield "norm of a vector", O[1], quad(I, lambda xi: f(2, 0, xi) * f(2, 0, xi) + f(2, 1, xi) * f(2, 1, xi))
        Contract(H, f"norm_{en}_{r}", bp, 2, postn, requires=E.requires, tol=tol, ufn=opaque.ufn, where=where + " norm", label=f"norm of {en}, rule {r}").check()
        if D == 1:
            continue

        def posts(I, O, E=E, N=N, quad=quad):
            for a in range(N):
                yield f"source [{a}]", O[a], quad(I, lambda xi: opq(1, 0, 0, *E.map(I, xi)) * E.phi(xi)[a])
        Contract(H, f"source_{en}_{r}", bp, N, posts, requires=E.requires, tol=tol, ufn=opaque.ufn, where=where + " source", label=f"source of {en}, rule {r}").check()
    from . import sums_spec as SS
    SS.under_contract(ctx, SS.norms, SS.weakforms)
