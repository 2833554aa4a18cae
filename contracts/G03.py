"""G03: bases, metrics, dual bases and volume forms."""
from engine import reals as R
from engine.numeric import Harness, Contract
from .geometry_spec import ALL, CART, POLAR, SPHERICAL, dot, det

WHERE = "mito::geometry::metric_space"


def run(ctx):
    H = Harness(ctx, "geometry.cc")
    ctx.assume("doubles are read as real numbers",
               "vectors have components in the orthonormal frame of the point they stem from (the library's convention)",
               "precondition: regular points (r > 0, sin(theta) > 0)")
    for name, S in ALL:
        D = S.D

        def post(I, O, S=S, D=D):
            q = S.vars("x", I)
            V = [[I[f"{w}{i}"] for i in range(D)] for w in "uvw"]
            e = [O[D * i:D * i + D] for i in range(D)]
            k = D * D
            g = [O[k + D * i:k + D * i + D] for i in range(D)]
            k += D * D
            gi = [O[k + D * i:k + D * i + D] for i in range(D)]
            k += D * D
            P = S.position(q)
            for i in range(D):
                for j, c in enumerate(S.cartesian(q, e[i])):
                    yield f"e_{i} is the derivative of the position [{j}]", c, R.diff(P[j], f"x{i}")
            for i in range(D):
                for j in range(D):
                    yield f"g[{i},{j}] is e_{i} . e_{j}", g[i][j], dot(e[i], e[j])
                    yield f"g g_inv is the identity [{i},{j}]", dot(g[i], [r[j] for r in gi]), R.ONE if i == j else R.ZERO
            for i in range(D):
                for j in range(D):
                    yield f"dx_{i}(e_{j})", O[k], R.ONE if i == j else R.ZERO
                    k += 1
                # the dual basis on any vector: the i-th component of u in the coordinate basis
                yield f"dx_{i}(u)", O[k] * S.scale(q)[i], V[0][i]
                k += 1
            # sqrt(det g) is the product of the (positive) scale factors
            vol = R.ONE
            for s in S.scale(q):
                vol = vol * s
            dual = [[c / s for c, s in zip(v, S.scale(q))] for v in V[:D]]
            yield "w is sqrt(det g) dx_0 ^ ... ^ dx_D", O[k], vol * det(dual)
            yield "w(e_0, ...) squared is det g", vol * vol, det(g)
        box = S.box("x") + [(f"{w}{i}", -2, 2) for w in "uvw" for i in range(D)]
        Contract(H, f"metric_{name}", box, 3 * D * D + D * (D + 1) + 1, post, requires=lambda I, S=S: S.regular(S.vars("x", I)),
                 positive={"x0"} if S.name != "cartesian" else (), where=WHERE, label=f"metric space in {name} coordinates").check()

    def named(I, O):
        x = [I["x0"], I["x1"], I["x2"]]
        k = 0

        def unit(lab, D, i, s=R.ONE):
            nonlocal k
            for j in range(D):
                yield f"{lab}[{j}]", O[k], s if i == j else R.ZERO
                k += 1
        for D in (1, 2, 3):
            for i in range(D):
                yield from unit(f"cartesian e_{i} in {D}D", D, i)
        for n, S in (("polar", POLAR), ("spherical", SPHERICAL)):
            for i in range(S.D):
                yield from unit(f"{n} basis vector {i}", S.D, i, S.scale(x)[i])
        for n, S in (("cartesian 2D", CART[2]), ("cartesian 3D", CART[3]), ("polar", POLAR), ("spherical", SPHERICAL)):
            for i in range(S.D):
                yield from unit(f"{n} metric row {i}", S.D, i, S.scale(x)[i] * S.scale(x)[i])
    n = 1 + 4 + 9 + 4 + 9 + 4 + 9 + 4 + 9
    Contract(H, "named", [("x0", 0.2, 2), ("x1", 0.1, 3), ("x2", -3, 3)], n, named, where="mito::geometry::basis, metric", label="named bases and metrics", positive={"x0"}).check()
