"""A01: stress and tangents of the material models are the exact derivatives of the energy."""
from engine import reals as R
from engine.numeric import Harness, Contract

FN = [f"F{i}{j}" for i in range(3) for j in range(3)]


def det(F):
    return (F[0] * (F[4] * F[8] - F[5] * F[7]) - F[1] * (F[3] * F[8] - F[5] * F[6])
            + F[2] * (F[3] * F[7] - F[4] * F[6]))


def common(I, O):
    """P = dW/dF, C = dP/dF, for the W, P, C of the code"""
    F = [I[n] for n in FN]
    W, P, C = O[0], O[1:10], O[10:91]
    for a in range(9):
        yield f"stress[{a // 3},{a % 3}] == dW/dF", P[a], R.diff(W, FN[a])
    for a in range(9):
        for b in range(9):
            yield f"tangent[{a // 3},{a % 3},{b // 3},{b % 3}] == dP/dF", C[9 * a + b], R.diff(P[a], FN[b])
    ident = {n: R.const(1 if n[1] == n[2] else 0) for n in FN}
    w0, *p0 = R.subst([W] + P, ident)
    yield "energy(identity) == 0", w0, R.ZERO
    for a in range(9):
        yield f"stress(identity)[{a // 3},{a % 3}] == 0", p0[a], R.ZERO
    # frame indifference of the stress power: P F^T symmetric (finite strain) is checked by caller
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    a, b = 3 * i + j, 3 * k + l
                    if a < b:
                        yield f"major symmetry [{i},{j},{k},{l}]", C[9 * a + b], C[9 * b + a]


def linear(I, O):
    E, nu = I["E"], I["nu"]
    lam = E * nu / ((1 + nu) * (1 - 2 * nu))
    mu = E / (2 * (1 + nu))
    F = [I[n] for n in FN]
    eps = [(F[3 * i + j] + F[3 * j + i]) / 2 - (1 if i == j else 0) for i in range(3) for j in range(3)]
    tr = eps[0] + eps[4] + eps[8]
    for i in range(3):
        for j in range(3):
            yield (f"stress[{i},{j}] == lambda tr(eps) + 2 mu eps", O[1 + 3 * i + j],
                   (lam * tr if i == j else R.ZERO) + 2 * mu * eps[3 * i + j])
    yield "energy == sigma:eps/2", O[0], sum((O[1 + a] * eps[a] for a in range(9)), R.ZERO) / 2
    yield from common(I, O)


def gent(I, O):
    F = [I[n] for n in FN]
    J = det(F)
    I1 = sum((f * f for f in F), R.ZERO)
    A = (J * J - 1) / 2 - R.fn("log", J)
    W = -(I["mu"] / 2) * (I["Jm"] * R.fn("log", 1 - (I1 - 3) / I["Jm"]) + 2 * R.fn("log", J)) + I["kappa"] / 2 * A * A * A * A
    yield "energy == Gent energy density", O[0], W
    P = O[1:10]
    for i in range(3):
        for j in range(i):
            yield (f"P F^T symmetric [{i},{j}]", sum((P[3 * i + k] * F[3 * j + k] for k in range(3)), R.ZERO),
                   sum((P[3 * j + k] * F[3 * i + k] for k in range(3)), R.ZERO))
    yield from common(I, O)


def gent_domain(I):
    """det F > 0, Jm > 0 and I1 - 3 < Jm"""
    F = [I[n] for n in FN]
    yield "gt", det(F), 0
    yield "gt", I["Jm"], 0
    yield "gt", I["Jm"] - (sum((f * f for f in F), R.ZERO) - 3), 0


def run(ctx):
    H = Harness(ctx, "materials.cc")
    ctx.assume("doubles are read as real numbers (no rounding, no overflow); log is uninterpreted up to its derivative")
    ctx.assume("pyre::tensor (external header library) is executed in place, not assumed")
    box = [(n, 0.85, 1.15) if n[1] == n[2] else (n, -0.15, 0.15) for n in FN]
    Contract(H, "linear_elastic", [("rho", 1, 2), ("E", 1, 10), ("nu", 0.1, 0.4)] + box, 91, linear,
             where="mito::materials::LinearElastic", label="LinearElastic").check()
    Contract(H, "gent", [("rho", 1, 2), ("kappa", 1, 5), ("mu", 1, 5), ("Jm", 5, 20)] + box, 91, gent,
             where="mito::materials::Gent", label="Gent", requires=gent_domain).check()
