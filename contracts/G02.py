"""G02: differences and sums of coordinates are Euclidean displacements."""
from engine import reals as R
from engine.numeric import Harness, Contract
from .geometry_spec import ALL, sin, cos, sqrt, dot

LESS = "mito::geometry::operator< (coordinates)"
WHERE = "mito::geometry::operator+/operator- (coordinates)"


def run(ctx):
    H = Harness(ctx, "geometry.cc")
    ctx.assume("doubles are read as real numbers; atan2, hypot as in G01",
               "vectors have components in the orthonormal frame of the point they stem from (the library's convention)",
               "precondition: both points regular (r > 0, sin(theta) > 0), and the displaced point off the singular axis")
    for name, S in ALL:
        D = S.D

        def req(I, S=S, D=D):
            A, B, v = S.vars("a", I), S.vars("b", I), [I[f"v{i}"] for i in range(D)]
            yield from S.regular(A)
            yield from S.regular(B)
            if S.name != "cartesian":
                # A + v off the singular axis
                for w in (v,):
                    P = [p + q for p, q in zip(S.position(A), S.cartesian(A, w))]
                    yield "gt", P[0] * P[0] + P[1] * P[1], 0

        def post(I, O, S=S, D=D):
            A, B, v = S.vars("a", I), S.vars("b", I), [I[f"v{i}"] for i in range(D)]
            PA, PB = S.position(A), S.position(B)
            diff, sum_, inc, back, dist = O[:D], O[D:2 * D], O[2 * D:3 * D], O[3 * D:4 * D], O[4 * D]
            for i, e in enumerate(S.cartesian(B, diff)):
                yield f"A - B is the vector from B to A [{i}]", e, PA[i] - PB[i]
            V = S.cartesian(A, v)
            for lab, c in (("A + v", sum_), ("A += v", inc)):
                for i, e in enumerate(S.position(c)):
                    yield f"{lab} is A displaced by v [{i}]", e, PA[i] + V[i]
                if S.name != "cartesian":
                    yield f"{lab} has positive radius (r^2 is the distance to the origin)", c[0] * c[0], dot([p + w for p, w in zip(PA, V)], [p + w for p, w in zip(PA, V)])
            for i, e in enumerate(S.position(back)):
                yield f"A + (B - A) is B [{i}]", e, PB[i]
            d = [p - q for p, q in zip(PA, PB)]
            yield "distance is the Euclidean distance", dist * dist, dot(d, d)
            yield "distance is not negative", ">=0", dist
        box = S.box("a") + S.box("b") + [(f"v{i}", -2, 2) for i in range(D)]
        pos = {"a0", "b0"} if S.name != "cartesian" else ()
        Contract(H, f"algebra_{name}", box, 4 * D + 1, post, requires=req, positive=pos, where=WHERE, label=f"algebra of {name} coordinates").check()

        def acc(I, O, S=S, D=D):
            A = S.vars("a", I)
            for k, lab in enumerate(("from components", "from a vector", "default", "assigned", "moved", "component functions", "named component functions", "factory")):
                for i in range(D):
                    yield f"{lab}[{i}]", O[k * D + i], R.ZERO if lab == "default" else A[i]
        Contract(H, f"access_{name}", S.box("a"), 8 * D, acc, where="mito::geometry::Coordinates", label=f"components of {name} coordinates").check()

        paths = Contract(H, f"equal_{name}", S.box("a") + S.box("b"), 2, equal(S, D), where="mito::geometry::operator== (coordinates)", label=f"equality of {name} coordinates",
                         sample=half_equal(S, D)).check()
        complete(ctx, paths, S, D, f"equality of {name} coordinates")
        paths = Contract(H, f"less_{name}", S.box("a") + S.box("b"), 1, lambda I, O: (), where=LESS, label=f"order of {name} coordinates",
                         sample=half_equal(S, D)).check()
        order(ctx, paths, S, D, f"order of {name} coordinates", name)


def equal(S, D):
    def post(I, O):
        yield "equal to itself", O[1], R.ONE
    return post


def half_equal(S, D):
    def sample(rnd):
        e = {}
        for (n, lo, hi), (m, _, _) in zip(S.box("a"), S.box("b")):
            e[n] = rnd.uniform(lo, hi)
            e[m] = e[n] if rnd.random() < 0.6 else rnd.uniform(lo, hi)
        return e
    return sample


def term(n, v):
    import z3
    o = n.op
    if o == "c":
        return z3.RealVal(str(n.args[0]))
    if o == "v":
        return v[n.args[0]]
    a = [term(m, v) for m in n.args]
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1],
            "neg": lambda: -a[0], "fabs": lambda: z3.If(a[0] >= 0, a[0], -a[0])}[o]()


def condition(p, v):
    for pr, a, b in p.rpc:
        x, y = term(a, v), term(b, v)
        yield {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr]


def order(ctx, paths, S, D, label, name):
    """operator< is a strict total order"""
    import z3
    if not paths:
        return
    pts = [[z3.Real(f"{t}{i}") for i in range(D)] for t in "xyz"]

    def less(A, B):
        v = {f"{t}{i}": e for t, X in (("a", A), ("b", B)) for i, e in enumerate(X)}
        return z3.Or([z3.And(*condition(p, v), term(p.out[0], v) == 1) for p in paths if p.status == "ret"])
    try:
        x, y, z = pts
        laws = [("no point precedes itself", z3.Not(less(x, x))),
                ("of two points at most one precedes the other", z3.Not(z3.And(less(x, y), less(y, x)))),
                ("of two different points one precedes the other", z3.Or(less(x, y), less(y, x), z3.And([a == b for a, b in zip(x, y)]))),
                ("the order is transitive", z3.Implies(z3.And(less(x, y), less(y, z)), less(x, z)))]
    except KeyError:
        ctx.stand_in(f"{label}.strict total order", "not translated", where=LESS)
        return
    for n, g in laws:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Not(g))
        c = s.check()
        if c == z3.unsat:
            ctx.discharged(f"{label}.{n}", "z3", LESS)
        elif c == z3.sat:
            m = s.model()
            val = [float(m.eval(e, model_completion=True).as_fraction()) for X in (x, y) for e in X]
            eq = val[:D] == val[D:]
            ctx.failed(f"{label}.{n}", f"at {val}", LESS, confirmed=True, replay=dict(kind="numeric", harness="geometry.cc", fn="less_" + name, inputs=val, names=[f"{t}{i}" for t in "ab" for i in range(D)], ints=[], nout=1,
                                                                     required="0.0" if eq else "a strict total order"))
        else:
            ctx.stand_in(f"{label}.{n}", "solver gave up", where=LESS)


def complete(ctx, paths, S, D, label):
    """operator== returns true exactly on the paths whose condition is the equality of all components"""
    import z3
    if not paths:
        return
    for k, p in enumerate(paths):
        if p.status != "ret":
            continue
        s = z3.Solver()
        v = {n: z3.Real(n) for n, _, _ in S.box("a") + S.box("b")}
        try:
            s.add(*condition(p, v))
            alleq = z3.And([v[f"a{i}"] == v[f"b{i}"] for i in range(D)])
            r = term(p.out[0], v)
            s.add(z3.Not(r == z3.If(alleq, z3.RealVal(1), z3.RealVal(0))))
        except KeyError:
            ctx.stand_in(f"{label}/path{k}.true exactly when all components agree", "not translated", where="mito::geometry::operator== (coordinates)")
            continue
        c = s.check()
        name = f"{label}/path{k}.true exactly when all components agree"
        where = "mito::geometry::operator== (coordinates)"
        if c == z3.unsat:
            ctx.discharged(name, "z3", where)
        elif c == z3.sat:
            m = s.model()
            val = {n: float(m.eval(x, model_completion=True).as_fraction()) for n, x in v.items()}
            names = [n for n, _, _ in S.box("a") + S.box("b")]
            ctx.failed(name, f"at {val}", where, replay=dict(kind="numeric", harness="geometry.cc", fn="equal_" + label.split()[2], inputs=[val[n] for n in names], names=names, ints=[], nout=2,
                                                              required=f"{1.0 if all(val[f'a{i}'] == val[f'b{i}'] for i in range(D)) else 0.0}"), confirmed=True)
        else:
            ctx.stand_in(name, "solver gave up", where=where)
