"""Specifications of the operators of mito::functions, on opaque operands.
Each entry: (label, expected components); the harness emits the value and, unless the entry is
marked value-only, its partial derivatives, in this order."""
from engine import reals as R
from engine.opaque import opq

c = R.const


class T:
    """vector / matrix of nodes"""

    def __init__(self, *e):
        self.e = list(e)


def vadd(u, v):
    return [a + b for a, b in zip(u, v)]


def vsub(u, v):
    return [a - b for a, b in zip(u, v)]


def scal(a, u):
    return [a * x for x in u]


def dot(u, v):
    return sum((a * b for a, b in zip(u, v)), R.ZERO)


def mv(A, u):
    return [A[0] * u[0] + A[1] * u[1], A[2] * u[0] + A[3] * u[1]]


def mm(A, B):
    return [A[0] * B[0] + A[1] * B[2], A[0] * B[1] + A[1] * B[3], A[2] * B[0] + A[3] * B[2], A[2] * B[1] + A[3] * B[3]]


def tr(A):
    return [A[0], A[2], A[1], A[3]]


def operands(xs):
    xs = list(xs) + [R.ZERO] * (3 - len(xs))

    def sc(i):
        return opq(i, 0, 0, *xs)

    def ve(i):
        return [opq(i, k, 0, *xs) for k in range(2)]

    def ma(i):
        return [opq(i, k, 0, *xs) for k in range(4)]
    return sc(1), sc(2), sc(3), ve(4), ve(5), ma(6), ma(7)


def s(x, order=0):
    return opq(8, 0, order, x)


def w(v):
    return opq(9, 0, 0, v[0], v[1])


def W(v):
    return [opq(10, k, 0, v[0], v[1]) for k in range(2)]


def scalars(xs, I):
    from engine.opaque import D
    f, g, h, F, G, P, Q = operands(xs)
    a, b = I["a"], I["b"]
    x0 = xs[0].args[0]
    lin = a * xs[0] + (b * xs[1] if len(xs) > 1 else R.ZERO)
    return [("f + g", f + g), ("f + a", f + a), ("a + f", a + f), ("a * f", a * f), ("f * a", f * a), ("f / a", f / a), ("-f", -f),
            ("f - g", f - g), ("a - f", a - f), ("f - a", f - a), ("f * g", f * g), ("a / f", a / f), ("f / g", f / g), ("f + 3", f + 3),
            ("3 * f", 3 * f), ("f - 2", f - 2), ("3 - f", 3 - f), ("f / 4", f / 4), ("linear_combination({a,b}, f, g)", a * f + b * g),
            ("linear_combination({a,b,2}, f, g, h)", a * f + b * g + 2 * h), ("summation(f, g, h)", f + g + h), ("linear_combination({a,b}, f, f)", a * f + b * f), ("s(f)", s(f)), ("s(f + g)", s(f + g)),
            ("s(s(f))", s(s(f))), ("(s + s*s)(f)", s(f) + s(f) * s(f)), ("(a*s)(f*g)", a * s(f * g)), ("d0(f*g)", D(f * g, x0)), ("d0(f/g)", D(f / g, x0)),
            ("d0(s(f))", D(s(f), x0)), ("f + constant(a)", f + a), ("f * constant(a)", f * a), ("zero + f", f), ("one * f", f), ("(f + g) * h", (f + g) * h),
            ("f * (g - h) / (a + g)", f * (g - h) / (a + g)), ("functor(x) * f", lin * f, "frozen")]


def tensors(xs, I):
    f, g, h, F, G, P, Q = operands(xs)
    a, b = I["a"], I["b"]
    v = [I["v0"], I["v1"]]
    A = [I[n] for n in ("A00", "A01", "A10", "A11")]
    det = P[0] * P[3] - P[1] * P[2]
    return [("F + G", vadd(F, G)), ("F - G", vsub(F, G)), ("-F", scal(c(-1), F)), ("a * F", scal(a, F)), ("F * a", scal(a, F)), ("F / a", scal(1 / a, F)),
            ("f * F", scal(f, F)), ("F * f", scal(f, F)), ("F / f", scal(1 / f, F)), ("F * G", dot(F, G)), ("F + v", vadd(F, v)), ("v - F", vsub(v, F)),
            ("F - v", vsub(F, v)), ("v * f", scal(f, v)), ("f * v", scal(f, v)), ("v * F", dot(v, F)), ("F * v", dot(v, F)), ("A * F", mv(A, F)),
            ("F[0]", F[0]), ("F[1]", F[1]), ("(F + G)[1]", F[1] + G[1]), ("(f * F)[0]", f * F[0]), ("(F * f)[1]", f * F[1]), ("(A * F)[1]", mv(A, F)[1]),
            ("P + Q", vadd(P, Q)), ("P - Q", vsub(P, Q)), ("P * F", mv(P, F)), ("P * Q", mm(P, Q)), ("a * P", scal(a, P)), ("P * a", scal(a, P)),
            ("f * P", scal(f, P)), ("A * P", mm(A, P)), ("P * A", mm(P, A)), ("P * v", mv(P, v)), ("P[0,1]", P[1]), ("P[1,0]", P[2]),
            ("transpose(P)", tr(P)), ("transpose(P * Q)", tr(mm(P, Q))), ("linear_combination({a,b}, F, G)", vadd(scal(a, F), scal(b, G))),
            ("constant(v) * f", scal(f, v)), ("determinant(P)", det, "value"), ("inverse(P)", [P[3] / det, -P[1] / det, -P[2] / det, P[0] / det], "value"),
            ("dyadic(F, G)", [F[0] * G[0], F[0] * G[1], F[1] * G[0], F[1] * G[1]], "value"), ("dyadic(F, G)[0,1]", F[0] * G[1], "value")]


def chains(xs, I):
    f, g, h, F, G, P, Q = operands(xs)
    a = I["a"]
    Wx = W(xs)
    wx = opq(9, 0, 0, xs[0], xs[1])
    return [("w(F)", w(F)), ("w(F + G)", w(vadd(F, G))), ("w(f * F)", w(scal(f, F))), ("W(F)", W(F)), ("W(F)[1]", W(F)[1]), ("(a * w)(F)", a * w(F)),
            ("(w * w)(W)", w(Wx) * w(Wx)), ("s(w(F))", s(w(F)))]


def library(xs, I):
    x = xs[0]
    fn = R.fn
    from engine.opaque import D
    S, C, E = fn("sin", x), fn("cos", x), fn("exp", x)
    return [("sin", S), ("cos", C), ("tan", fn("tan", x)), ("acos", fn("acos", x)), ("asin", fn("asin", x)), ("atan", fn("atan", x)), ("exp", E), ("log", fn("log", x)),
            ("sqrt", fn("sqrt", x)), ("cbrt", fn("cbrt", x)), ("pow<1>", x), ("pow<2>", x ** 2), ("pow<3>", x ** 3), ("pow<4>", x ** 4), ("pow<5>", x ** 5), ("pow<7>", x ** 7),
            ("constant(a)", I["a"]), ("zero", c(0)), ("one", c(1)), ("d0 sin", C), ("d0 pow<4>", 4 * x ** 3), ("d0 cos", -S), ("sin(cos)", fn("sin", C)),
            ("exp(sin) * pow<2>", fn("exp", S) * x ** 2), ("sin * cos - exp / (pow<2> + 1)", S * C - E / (x ** 2 + 1))]


def components(xs, I):
    return [("component 0", xs[0]), ("component 1", xs[1]), ("component 2", xs[2]), ("product of components", xs[0] * xs[1] * xs[2]),
            ("sin(component 2) * component 0", R.fn("sin", xs[2]) * xs[0]), ("constant", I["a"]), ("zero", c(0)), ("one", c(1))]


def full(xs, I):
    """full derivatives appended after the chains: (label, [entries (component expression, variable)])"""
    f, g, h, F, G, P, Q = operands(xs)
    H = [opq(11, k, 0, *xs) for k in range(3)]
    C = [opq(12, k, 0, xs[0]) for k in range(2)]
    x0, x1 = xs[0].args[0], xs[1].args[0]

    def jac(rows, vars):
        return [(r, v) for r in rows for v in vars]
    return [("derivative(f)", jac([f], [x0, x1])), ("derivative(F)", jac(F, [x0, x1])), ("derivative(f * g)", jac([f * g], [x0, x1])),
            ("derivative(W(F))", jac(W(F), [x0, x1])), ("derivative(H), 3 outputs", jac(H, [x0, x1])), ("derivative(C), curve", jac(C, [x0])), ("derivative(s)", jac([s(xs[0])], [x0]))]


def mat3(A, u):
    return [sum((A[3 * i + j] * u[j] for j in range(3)), R.ZERO) for i in range(3)]


def three(xs, I):
    """(label, components, 'diff' | 'second' | 'full' | 'value')"""
    a = I["a"]
    v = [I[f"v{i}"] for i in range(3)]
    A = [I[f"A{i}{j}"] for i in range(3) for j in range(3)]
    f, g, h = [opq(i, 0, 0, *xs) for i in (1, 2, 3)]
    F, G = [[opq(i, k, 0, *xs) for k in range(3)] for i in (4, 5)]
    P, Q = [[opq(i, k, 0, *xs) for k in range(9)] for i in (6, 7)]
    F32 = [opq(13, k, 0, *xs) for k in range(2)]

    def w_(u):
        return opq(9, 0, 0, *u)

    def W_(u):
        return [opq(10, k, 0, *u) for k in range(3)]
    PQ = [sum((P[3 * i + l] * Q[3 * l + j] for l in range(3)), R.ZERO) for i in range(3) for j in range(3)]
    det = (P[0] * (P[4] * P[8] - P[5] * P[7]) - P[1] * (P[3] * P[8] - P[5] * P[6]) + P[2] * (P[3] * P[7] - P[4] * P[6]))

    def cof(i, j):
        r = [x for x in range(3) if x != i]
        q = [x for x in range(3) if x != j]
        m = P[3 * r[0] + q[0]] * P[3 * r[1] + q[1]] - P[3 * r[0] + q[1]] * P[3 * r[1] + q[0]]
        return m if (i + j) % 2 == 0 else -m
    inv = [cof(j, i) / det for i in range(3) for j in range(3)]
    D = [("f * g", f * g), ("f / g", f / g), ("s(f)", s(f)), ("linear_combination({a,2,-a}, f, g, h)", a * f + 2 * g - a * h), ("w(F)", w_(F)),
         ("w(F + G)", w_(vadd(F, G))), ("w(f * F)", w_(scal(f, F))), ("W(F)", W_(F)), ("W(F)[1]", W_(F)[1]), ("w2(F32)", opq(14, 0, 0, *F32)),
         ("W23(F32)", [opq(15, k, 0, *F32) for k in range(3)]), ("curve(f)", [opq(16, k, 0, f) for k in range(3)]), ("s(w(W(F)))", s(w_(W_(F)))),
         ("F * G", dot(F, G)), ("v * F", dot(v, F)), ("A * F", mat3(A, F)), ("(A * F)[2]", mat3(A, F)[2]), ("f * F", scal(f, F)), ("F / f", scal(1 / f, F)),
         ("P * F", mat3(P, F)), ("P * Q", PQ), ("transpose(P)", [P[3 * j + i] for i in range(3) for j in range(3)]), ("P[1,2]", P[5]), ("P[2,0]", P[6]),
         ("P * v", mat3(P, v)), ("F[2]", F[2])]
    S2 = [("f * g", f * g), ("f / g", f / g), ("s(f)", s(f)), ("w(F)", w_(F)), ("f * F", scal(f, F))]
    full3 = [("derivative(f)", [f]), ("derivative(F)", F), ("derivative(F32)", F32), ("derivative(W(F))", W_(F))]
    vals = [("determinant(P)", [det]), ("inverse(P)", inv), ("dyadic(F, G)", [F[i] * G[j] for i in range(3) for j in range(3)])]

    def lst(e):
        return e if isinstance(e, list) else [e]
    return [(l, lst(e), "diff") for l, e in D] + [(l, lst(e), "second") for l, e in S2] + [(l, e, "full") for l, e in full3] + [(l, e, "value") for l, e in vals]


def three_entries(xs, I):
    """(kind 'value' | 'derivative', label, expected) in output order"""
    from engine.opaque import D
    for label, comps, kind in three(xs, I):
        n = len(comps)
        tag = [f"[{k}]" if n > 1 else "" for k in range(n)]
        if kind in ("diff", "value"):
            for k, e in enumerate(comps):
                yield "value", f"3D: value of {label}{tag[k]}", e
        if kind == "diff":
            for d in range(3):
                for k, e in enumerate(comps):
                    yield "derivative", f"3D: d{d} of {label}{tag[k]}", D(e, f"x{d}")
        if kind == "second":
            for i, j in ((0, 0), (0, 1), (1, 2), (2, 2)):
                for k, e in enumerate(comps):
                    yield "derivative", f"3D: d{i}d{j} of {label}{tag[k]}", D(D(e, f"x{i}"), f"x{j}")
        if kind == "full":
            for k, e in enumerate(comps):
                for d in range(3):
                    yield "derivative", f"3D: {label}[{k},{d}]", D(e, f"x{d}")


def library2_entries(xs, I):
    from engine.opaque import D
    x = xs[0]
    fn = R.fn
    for n in range(1, 17):
        yield "value", f"value of pow<{n}>", x ** n
        yield "derivative", f"derivative of pow<{n}>", n * x ** (n - 1) if n > 1 else c(1)
    for n in range(2, 18):
        yield "derivative", f"second derivative of pow<{n}>", n * (n - 1) * x ** (n - 2) if n > 2 else c(2)
    for nm, e in [(n, fn(n, x)) for n in ("sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "sqrt", "cbrt")] + [("sin(pow<2>) * exp", fn("sin", x * x) * fn("exp", x))]:
        yield "derivative", f"second derivative of {nm}", D(D(e, "x0"), "x0")


BOX3 = [("x0", 0.15, 0.85), ("x1", 0.15, 0.85), ("x2", 0.15, 0.85), ("a", 0.5, 2.5)] + [(f"v{i}", -2, 2) for i in range(3)] + [(f"A{i}{j}", -2, 2) for i in range(3) for j in range(3)]
EXTRA = [("three", three_entries, 3, BOX3), ("library2", library2_entries, 1, [("x0", 0.15, 0.85)])]


def regular3(I):
    P = [opq(6, k, 0, *xvars(3)) for k in range(9)]
    yield "ne", P[0] * (P[4] * P[8] - P[5] * P[7]) - P[1] * (P[3] * P[8] - P[5] * P[6]) + P[2] * (P[3] * P[7] - P[4] * P[6]), 0


def extra(H, ctx, what, where, ufn):
    from engine.numeric import Contract
    for fnm, ent, nv, box in EXTRA:
        I = {n: R.var(n) for n, _, _ in box}
        E = list(ent(xvars(nv), I))

        def post(I, O, E=E):
            for i, (kind, label, e) in enumerate(E):
                if kind == what:
                    yield label, O[i], e
        Contract(H, fnm, box, len(E), post, where=where, label=fnm, ufn=ufn, positive={"x0"} if fnm == "library2" else (),
                 requires=regular3 if fnm == "three" else None).check()


BOX = [("a", 0.5, 2.5), ("b", -2, 2), ("v0", -2, 2), ("v1", -2, 2), ("A00", -2, 2), ("A01", -2, 2), ("A10", -2, 2), ("A11", -2, 2)]
FUNCS = [("scalars_s", scalars, 1, BOX[:2]), ("scalars_v", scalars, 2, BOX[:2]), ("tensors_s", tensors, 1, BOX), ("tensors_v", tensors, 2, BOX),
         ("chains", chains, 2, BOX[:1]), ("library", library, 1, BOX[:1]), ("components", components, 3, BOX[:1])]


def layout(spec, nv):
    """(label, expected components, index of the value, indices of the derivatives or None)"""
    k = 0
    out = []
    for e in spec:
        comps = e[1] if isinstance(e[1], list) else [e[1]]
        n = len(comps)
        val = list(range(k, k + n))
        k += n
        der = None
        if len(e) < 3 or e[2] != "value":
            der = []
            for _ in range(nv):
                der.append(list(range(k, k + n)))
                k += n
        out.append((e[0], comps, val, der, len(e) > 2 and e[2] == "frozen"))
    return out, k


def names(fn, nv, box):
    # the input array is laid out x0, x1, (a, b ...) except for library / components
    xs = [(f"x{i}", 0.15, 0.85) for i in range(nv)]
    if fn in ("library",):
        return xs + box
    if fn == "components":
        return xs + box
    if nv == 1:
        return xs + [("x1", 0, 1)] + box
    return xs + box


def xvars(nv):
    return [R.var(f"x{i}") for i in range(nv)]


def regular(fn, nv):
    """precondition of inverse: the matrix is regular"""
    def req(I):
        P = operands(xvars(nv))[5]
        yield "ne", P[0] * P[3] - P[1] * P[2], 0
    return req if fn.startswith("tensors") else None
