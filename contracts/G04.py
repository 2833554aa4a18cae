"""G04: barycenter, directors, parametrization and measures of simplices."""
import math
from fractions import Fraction
from engine import reals as R, opaque
from engine.numeric import Harness, Contract
from .geometry_spec import CART, POLAR, SPHERICAL, dot, det

SYS = {"c1": CART[1], "c2": CART[2], "c3": CART[3], "pol": POLAR, "sph": SPHERICAL}


def boxes(N, S):
    # vertices of a small simplex (the sampling box keeps the curvilinear ones away from the axis)
    if S.name == "cartesian":
        return [b for a in range(N + 1) for b in S.box(f"p{a}_")]
    base = {"polar": [(1, 2), (0.2, 1.4)], "spherical": [(1, 2), (0.5, 1.4), (0.2, 1.2)]}[S.name]
    return [(f"p{a}_{i}", lo, hi) for a in range(N + 1) for i, (lo, hi) in enumerate(base)]


def verts(N, S, I):
    return [S.vars(f"p{a}_", I) for a in range(N + 1)]


def run(ctx):
    H = Harness(ctx, "simplex.cc")
    H.setup = opaque.setup
    ctx.assume("doubles are read as real numbers; atan2 as in G01",
               "contract on CoordinateSystem::coordinates: it returns the coordinates the point was placed at (proved in G01 over a ghost map)",
               "curvilinear coordinates: regular points (r > 0, sin(theta) > 0), barycenter off the axis")
    half = R.const(Fraction(1, 2))
    for N, c in ((1, "c1"), (1, "c2"), (1, "c3"), (2, "c2"), (2, "c3"), (3, "c3"), (1, "pol"), (2, "pol"), (3, "sph")):
        S = SYS[c]
        D = S.D

        def req(I, N=N, S=S):
            V = verts(N, S, I)
            for q in V:
                yield from S.regular(q)
            if S.name != "cartesian":
                P = [S.position(q) for q in V]
                for pts in (P, P[:2]):
                    b = [sum((p[i] for p in pts), R.ZERO) for i in range(2)]
                    yield "gt", b[0] * b[0] + b[1] * b[1], 0

        def post(I, O, N=N, S=S, D=D):
            V = verts(N, S, I)
            P = [S.position(q) for q in V]
            bar, stem = O[:D], O[D:2 * D]
            for i, e in enumerate(S.position(bar)):
                yield f"barycenter is the mean of the vertices [{i}]", e * (N + 1), sum((p[i] for p in P), R.ZERO)
            for i in range(D):
                yield f"directors stem from the first vertex [{i}]", stem[i], V[0][i]
            for a in range(N):
                d = O[2 * D + a * D:2 * D + (a + 1) * D]
                for i, e in enumerate(S.cartesian(V[0], d)):
                    yield f"director {a} is the edge to vertex {a + 1} [{i}]", e, P[a + 1][i] - P[0][i]
            k = 2 * D + N * D
            e = [p - q for p, q in zip(P[1], P[0])]
            yield "distance of two vertices", O[k] * O[k], dot(e, e)
            yield "distance is not negative", ">=0", O[k]
            for i, x in enumerate(S.position(O[k + 1:k + 1 + D])):
                yield f"midpoint of two vertices [{i}]", x, (P[0][i] + P[1][i]) * half
        pos = {f"p{a}_0" for a in range(N + 1)} if S.name != "cartesian" else ()
        Contract(H, f"geometry_{N}_{c}", boxes(N, S), 2 * D + N * D + 1 + D, post, requires=req, positive=pos, ufn=opaque.ufn, where="mito::geometry::barycenter/directors/distance/midpoint",
                 label=f"{N}-simplex in {S.name} {D}D").check()
    for N, c in ((1, "c1"), (1, "c2"), (1, "c3"), (2, "c2"), (2, "c3"), (3, "c3")):
        S = SYS[c]
        D = S.D

        def post(I, O, N=N, S=S, D=D):
            V = verts(N, S, I)
            xi = [I[f"xi{i}"] for i in range(N)]
            xi.append(R.ONE - sum(xi, R.ZERO))
            for i in range(D):
                yield f"the parametrization maps to the weighted sum of the vertices [{i}]", O[i], sum((x * v[i] for x, v in zip(xi, V)), R.ZERO)
            for a in range(N + 1):
                yield f"barycentric coordinate {a}", O[D + a], xi[a]
            yield "area of the reference simplex is 1/n!", O[D + N + 1], R.const(Fraction(1, math.factorial(N)))
        Contract(H, f"parametrization_{N}_{c}", boxes(N, S) + [(f"xi{i}", 0, 0.5) for i in range(N)], D + N + 2, post, where="mito::geometry::GeometricSimplex::parametrization",
                 label=f"parametrization of a {N}-simplex in {D}D").check()
    for N, c in ((1, "c1"), (2, "c2"), (3, "c3"), (2, "pol"), (3, "sph")):
        S = SYS[c]

        def post(I, O, N=N, S=S):
            P = [S.position(q) for q in verts(N, S, I)]
            yield "volume is the determinant of the edges over n!", O[0] * math.factorial(N), det([[a - b for a, b in zip(p, P[0])] for p in P[1:]])
        Contract(H, f"volume_{N}_{c}", boxes(N, S), 1, post, requires=lambda I, N=N, S=S: (r for q in verts(N, S, I) for r in S.regular(q)),
                 positive={f"p{a}_0" for a in range(N + 1)} if S.name != "cartesian" else (), where="mito::manifolds::Manifold::volume", label=f"volume of a {N}-simplex in {S.name} coordinates").check()
    for N, c in ((1, "c2"), (1, "c3"), (2, "c3"), (1, "pol"), (2, "sph")):
        S = SYS[c]
        D = S.D

        def post(I, O, N=N, S=S, D=D):
            V = verts(N, S, I)
            P = [S.position(q) for q in V]
            q3 = list(V[0]) + [R.ZERO] * (3 - D)
            nrm = [[opaque.opq(f, i, 0, *q3) for i in range(D)] for f in (1, 2)][:D - N]
            rows = [S.cartesian(V[0], n) for n in nrm] + [[a - b for a, b in zip(p, P[0])] for p in P[1:]]
            yield "measure is the determinant of the normals and the edges over n!", O[0] * math.factorial(N), det(rows)
        Contract(H, f"measure_{N}_{c}", boxes(N, S), 1, post, requires=lambda I, N=N, S=S: (r for q in verts(N, S, I) for r in S.regular(q)), ufn=opaque.ufn,
                 positive={f"p{a}_0" for a in range(N + 1)} if S.name != "cartesian" else (), where="mito::manifolds::submanifold, Manifold::volume", label=f"measure of a {N}-simplex in {S.name} {D}D").check()
    from . import sums_spec as SS
    SS.under_contract(ctx, SS.totals)
