"""shape functions on the reference simplices and isoparametric maps, as the contracts need them"""
from fractions import Fraction as Fr
from engine import reals as R, opaque
from .geometry_spec import det, dot

half = R.const(Fr(1, 2))


class Element:
    """nodes: their barycentric coordinates (first entry: weight of vertex 0, ...)"""

    def __init__(self, name, D, degree, bary):
        self.name, self.D, self.degree, self.N = name, D, degree, D * 0 + (D + 1 if degree == 1 else 6)
        self.bary = bary            # barycentric weights of the vertices at the parametric point xi

    def nodes(self):
        """parametric coordinates of the nodes: the vertices, then the middles of edges 01, 12, 20"""
        V = [[R.ZERO], [R.ONE]] if self.D == 1 else [[R.ONE, R.ZERO], [R.ZERO, R.ONE], [R.ZERO, R.ZERO]]
        if self.degree == 2:
            V += [[(V[a][d] + V[b][d]) * half for d in range(self.D)] for a, b in ((0, 1), (1, 2), (2, 0))]
        return V

    def phi(self, xi):
        L = self.bary(xi)
        if self.degree == 1:
            return L
        return [L[a] * (2 * L[a] - R.ONE) for a in range(3)] + [4 * L[a] * L[b] for a, b in ((0, 1), (1, 2), (2, 0))]

    def box(self):
        xi = [(f"xi{d}", 0.05, 0.45) for d in range(self.D)]
        if self.D == 1:
            return xi, [("p0_0", -2, 2), ("p1_0", -2, 2)]
        return xi, [(f"p{a}_{d}", -2, 2) for a in range(3) for d in range(2)]

    def xi(self, I):
        return [I[f"xi{d}"] for d in range(self.D)]

    def verts(self, I):
        return [[I[f"p{a}_{d}"] for d in range(self.D)] for a in range(self.D + 1)]

    def map(self, I, xi):
        L = self.bary(xi)
        return [sum((l * v[d] for l, v in zip(L, self.verts(I))), R.ZERO) for d in range(self.D)]

    def jacobian(self, I):
        """constant: straight-sided elements"""
        xi = self.xi({f"xi{d}": R.var(f"xi{d}") for d in range(self.D)})
        x = self.map(I, xi)
        return [[R.diff(x[i], f"xi{j}") for j in range(self.D)] for i in range(self.D)]

    def requires(self, I):
        yield "ne", det(self.jacobian(I)), 0

    def gradients(self, I, xi):
        """spatial gradients: row vectors dphi J^-1"""
        J = self.jacobian(I)
        d = det(J)
        inv = [[R.ONE / d]] if self.D == 1 else [[J[1][1] / d, -J[0][1] / d], [-J[1][0] / d, J[0][0] / d]]
        y = [R.var(f"y{k}") for k in range(self.D)]
        out = []
        for p in self.phi(y):
            g = R.subst([R.diff(p, f"y{k}") for k in range(self.D)], {f"y{k}": x for k, x in enumerate(xi)})
            out.append([sum((g[k] * inv[k][j] for k in range(self.D)), R.ZERO) for j in range(self.D)])
        return out


SEG1 = Element("seg1", 1, 1, lambda x: [R.ONE - x[0], x[0]])
TRI1 = Element("tri1", 2, 1, lambda x: [x[0], x[1], R.ONE - x[0] - x[1]])
TRI2 = Element("tri2", 2, 2, lambda x: [x[0], x[1], R.ONE - x[0] - x[1]])
ALL = [SEG1, TRI1, TRI2]
