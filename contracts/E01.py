"""E01: shape functions are a nodal basis, sum to one, and the reported gradients are spatial gradients."""
from engine import reals as R, opaque
from engine.numeric import Harness, Contract
from .fem_spec import ALL


def run(ctx):
    H = Harness(ctx, "fem.cc")
    H.setup = opaque.setup
    ctx.assume("doubles are read as real numbers",
               "contract on CoordinateSystem::coordinates: it returns the coordinates the point was placed at",
               "nodes of an element: its vertices in order, then (second degree) the middles of the edges 01, 12, 20; the binding of degrees of freedom to nodes is E03")
    for E in ALL:
        N, D = E.N, E.D
        bx, bp = E.box()

        def post(I, O, E=E, N=N, D=D):
            xi = E.xi(I)
            o = list(O)

            def take(n):
                r = o[:n]
                del o[:n]
                return r
            sh = take(N)
            dsh = [take(D) for _ in range(N)]
            J = [take(D) for _ in range(D)]
            gr = [take(D) for _ in range(N)]
            x = take(D)
            for b, y in enumerate(E.nodes()):
                at = R.subst(sh, {f"xi{d}": v for d, v in enumerate(y)})
                for a in range(N):
                    yield f"shape {a} at node {b}", at[a], R.ONE if a == b else R.ZERO
            yield "shape functions sum to one", sum(sh, R.ZERO), R.ONE
            for d in range(D):
                yield f"position interpolates the nodes [{d}]", x[d], sum((s * E.map(I, y)[d] for s, y in zip(sh, E.nodes())), R.ZERO)
            # a nodal basis of polynomials of the degree of the element: they are reproduced
            for i in range(D):
                for j in range(i, D):
                    if E.degree == 2:
                        yield f"quadratic x{i}x{j} is reproduced", sum((s * y[i] * y[j] for s, y in zip(sh, E.nodes())), R.ZERO), xi[i] * xi[j]
            for a in range(N):
                for d in range(D):
                    yield f"parametric derivative of shape {a} [{d}]", dsh[a][d], R.diff(sh[a], f"xi{d}")
            Jt = [[R.diff(x[i], f"xi{j}") for j in range(D)] for i in range(D)]
            for i in range(D):
                for j in range(D):
                    yield f"jacobian [{i}{j}]", J[i][j], Jt[i][j]
            for a in range(N):
                for j in range(D):
                    yield f"gradient of shape {a} is spatial [{j}]", sum((gr[a][i] * Jt[i][j] for i in range(D)), R.ZERO), R.diff(sh[a], f"xi{j}")
        Contract(H, f"shapes_{E.name}", bx + bp, N + N * D + D * D + N * D + D, post, requires=E.requires,
                 ufn=opaque.ufn, where=f"mito::fem::Isoparametric{E.name}", label=E.name).check()
