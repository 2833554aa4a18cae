"""X01: exterior algebra."""
import itertools
from engine import opaque, reals as R
from engine.numeric import Harness, Contract
from .geometry_spec import ALL

WHERE = "mito::tensor::"


def dot(u, v):
    return sum((a * b for a, b in zip(u, v)), R.ZERO)


def laws(D):
    def post(I, O):
        n = list(I.values())
        a, b, c, x, y, z = [n[k * D:(k + 1) * D] for k in range(6)]
        s, t = n[6 * D], n[6 * D + 1]

        def w2(f, g, u, v):
            return dot(f, u) * dot(g, v) - dot(f, v) * dot(g, u)

        def det3(f, u):
            m = [[dot(p, q) for q in u] for p in f]
            return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                    + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
        ax, bx, cx = dot(a, x), dot(b, x), dot(c, x)
        ay, by, cy = dot(a, y), dot(b, y), dot(c, y)
        az, bz, cz = dot(a, z), dot(b, z), dot(c, z)
        abc = det3([a, b, c], [x, y, z])
        tab, tbc = ax * by, bx * cy
        w = w2(a, b, x, y)
        exp = [("one_form: a(x)", ax), ("sum of forms", ax + bx), ("difference of forms", ax - bx), ("negation", -ax), ("scalar * form", s * ax),
               ("form * scalar", s * ax), ("linear: a(x + y)", ax + ay), ("linear: a(s x)", s * ax), ("a * b is the tensor product", tab),
               ("tensor product of two", tab), ("tensor product of three", ax * by * cz), ("wedge of one form", ax), ("wedge of a scalar and a form", s * ax),
               ("wedge of a form and a scalar", s * ax), ("wedge of two one-forms is the determinant", w), ("wedge of three one-forms is the determinant", abc),
               ("wedge of a one-form and a two-form is associative", abc),
               ("wedge of a one-form and a combination of two-forms", s * abc),
               ("wedge of a scalar and a two-form", s * w), ("wedge of a two-form and a scalar", s * w),
               ("sum of two-forms", tab + tbc), ("difference of two-forms", tab - tbc), ("linear combination of two-forms", s * w + t * w2(b, c, x, y)),
               ("sum of three-forms", ax * by * cz + abc), ("negation and scaling of a three-form", -(s * abc)),
               ("contraction of the first slot", tab), ("contraction of the second slot", tab), ("contraction of the first slot of a wedge", w),
               ("contraction of the second slot of a wedge", w), ("empty contraction", ax), ("contraction of two slots of a three-form", abc),
               ("wedge is homogeneous", s * w),
               ("contraction x__ of a three-form", abc), ("contraction _y_ of a three-form", abc), ("contraction __z of a three-form", abc),
               ("contraction x_z of a three-form", abc), ("contraction _yz of a three-form", abc),
               ("empty contraction of a tensor product", tab), ("empty contraction of a wedge", w),
               ("contraction x__ of a tensor product", ax * by * cz), ("contraction _y_ of a tensor product", ax * by * cz), ("contraction __z of a tensor product", ax * by * cz)]
        for k, (lab, e) in enumerate(exp):
            if e is not None:
                yield lab, O[k], e
    return post


def metric(D, kind):
    def post(I, O):
        n = list(I.values())
        a, x, m = n[:D], n[D:2 * D], n[2 * D:]
        if kind == "sym":
            M, k = {}, 0
            for i in range(D):
                for j in range(i, D):
                    M[i, j] = M[j, i] = m[k]
                    k += 1
        else:
            M = {(i, j): m[i] if i == j else R.ZERO for i in range(D) for j in range(D)}
        yield "a(x) == a . M x", O[0], sum((M[i, j] * a[i] * x[j] for i in range(D) for j in range(D)), R.ZERO)
    return post


def fields(ctx):
    """products of fields of one-forms, pointwise"""
    H = Harness(ctx, "geometry.cc")
    H.setup = opaque.setup
    for name, S in ALL[1:]:
        D = S.D

        def post(I, O, S=S, D=D):
            q = S.vars("x", I)
            at = list(q) + [R.ZERO] * (3 - D)
            u, v, w = [[I[f"{n}{i}"] for i in range(D)] for n in "uvw"]
            f = opaque.opq(1, 0, 0, *at)
            a, b, c = [[opaque.opq(k, i, 0, *at) for i in range(D)] for k in (2, 3, 4)]

            def w2(f, g):
                return dot(f, u) * dot(g, v) - dot(f, v) * dot(g, u)
            m = [[dot(p, r) for r in (u, v, w)] for p in (a, b, c)]
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            au, bu = dot(a, u), dot(b, u)
            exp = [("tensor product of two fields", au * dot(b, v)), ("tensor product of three fields", au * dot(b, v) * dot(c, w)),
                   ("wedge of one field", au), ("wedge of two fields", w2(a, b)), ("wedge of three fields", det),
                   ("sum of fields of one-forms", au + bu), ("difference of fields of one-forms", au - bu), ("negation of a field of one-forms", -au),
                   ("scalar field times a field of one-forms", f * au), ("field of one-forms times a scalar field", f * au),
                   ("combination of fields of two-forms", f * w2(a, b) + w2(b, c))]
            for k, (lab, e) in enumerate(exp):
                yield lab, O[k], e
        box = S.box("x") + [(f"{n}{i}", -2, 2) for n in "uvw" for i in range(D)]
        Contract(H, f"field_forms_{name}", box, 11, post, requires=lambda I, S=S: S.regular(S.vars("x", I)), ufn=opaque.ufn,
                 positive={"x0"} if S.name != "cartesian" else (), where="mito::fields::tensor/wedge", label=f"fields of forms in {name} coordinates").check()


def run(ctx):
    fields(ctx)
    H = Harness(ctx, "forms.cc")
    ctx.assume("doubles are read as real numbers; forms over Euclidean pairings with arbitrary components (every linear form on R^D is one of them)")
    ctx.assume("dimensions 2 and 3: the dimensions the library instantiates")
    for D in (2, 3):
        names = [f"{v}{i}" for v in "abcxyz" for i in range(D)] + ["s", "t"]
        Contract(H, f"laws{D}", [(n, -2, 2) for n in names], 42, laws(D), where=WHERE + "Form/wedge/tensor", label=f"forms in {D}D").check()
        for k, cnt in (("sym", D * (D + 1) // 2), ("dia", D)):
            names = [f"a{i}" for i in range(D)] + [f"x{i}" for i in range(D)] + [f"m{i}" for i in range(cnt)]
            Contract(H, f"metric_{k}{D}", [(n, -2, 2) for n in names], 1, metric(D, k), where=WHERE + "one_form", label=f"one_form with metric ({k}, {D}D)").check()
