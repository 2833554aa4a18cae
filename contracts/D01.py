"""D01: gradients and divergences."""
from engine import reals as R, opaque
from engine.numeric import Harness, Contract
from .geometry_spec import ALL, CART, POLAR, SPHERICAL, dot


def run(ctx):
    H = Harness(ctx, "geometry.cc")
    H.setup = opaque.setup
    ctx.assume("doubles are read as real numbers; fields are opaque differentiable functions with opaque derivatives",
               "vectors have components in the orthonormal frame of the point they stem from (the library's convention)",
               "precondition: regular points (r > 0, sin(theta) > 0)")

    def opq(id, comp, q, order=0):
        return opaque.opq(id, comp, order, *(list(q) + [R.ZERO] * (3 - len(q))))
    for name, S in ALL[1:]:
        D = S.D

        def post(I, O, S=S, D=D):
            q = S.vars("x", I)
            u = [I[f"u{i}"] for i in range(D)]
            f = opq(1, 0, q)
            df = [opaque.D(f, f"x{i}") for i in range(D)]
            h = S.scale(q)
            # physical components of the gradient: the derivatives along the unit vectors
            grad = [d / s for d, s in zip(df, h)]
            yield "df(u) is the derivative of f along u", O[0], dot(grad, u)
            for i in range(D):
                yield f"the metric equivalent of df is the gradient [{i}]", O[1 + i], grad[i]
            F = [opq(2, i, q) for i in range(D)]
            yield "the metric equivalent of a vector is the scalar product with it", O[1 + D], dot(F, u)
        box = S.box("x") + [(f"u{i}", -2, 2) for i in range(D)]
        Contract(H, f"gradient_form_{name}", box, 2 + D, post, requires=lambda I, S=S: S.regular(S.vars("x", I)), ufn=opaque.ufn,
                 positive={"x0"} if S.name != "cartesian" else (), where="mito::geometry::metric_space::metric_equivalent", label=f"gradient in {name} coordinates").check()

    for fn, D, N in (("operators_cart2", 2, 2), ("operators_cart3", 3, 3), ("operators_cart23", 2, 3), ("operators_cart32", 3, 2)):
        S = CART[D]

        def post(I, O, S=S, D=D, N=N):
            q = S.vars("x", I)
            d = [(lambda e, i=i: opaque.D(e, f"x{i}")) for i in range(D)]
            f, h = opq(1, 0, q), opq(3, 0, q)
            F = [opq(2, i, q) for i in range(N)]
            G = [opq(4, i, q) for i in range(D)]
            T = [[opq(5, D * i + j, q) for j in range(D)] for i in range(D)]
            exp = [(f"gradient of a scalar [{i}]", d[i](f)) for i in range(D)]
            exp += [(f"gradient of a product [{i}]", d[i](f * h)) for i in range(D)]
            exp += [(f"gradient of a vector [{i},{j}]", d[j](F[i])) for i in range(N) for j in range(D)]
            exp += [("divergence of a vector", sum((d[i](G[i]) for i in range(D)), R.ZERO))]
            exp += [("divergence of a scaled vector", sum((d[i](f * G[i]) for i in range(D)), R.ZERO))]
            exp += [(f"divergence of a tensor [{i}]", sum((d[j](T[i][j]) for j in range(D)), R.ZERO)) for i in range(D)]
            exp += [("divergence of a gradient", sum((d[i](d[i](f)) for i in range(D)), R.ZERO))]
            exp += [(f"second gradient [{i},{j}]", d[j](d[i](f))) for i in range(D) for j in range(D)]
            for k, (lab, e) in enumerate(exp):
                yield lab, O[k], e
        n = 2 * D + N * D + 2 + D + 1 + D * D
        Contract(H, fn, S.box("x"), n, post, ufn=opaque.ufn, where="mito::fields::gradient/divergence", label=f"differential operators ({D}D points, {N}D values)").check()
