"""positions, frames and metrics of the coordinate systems, as the contracts need them"""
from engine import reals as R

sin, cos, sqrt = (lambda x: R.fn("sin", R.lift(x))), (lambda x: R.fn("cos", R.lift(x))), (lambda x: R.fn("sqrt", R.lift(x)))


class System:
    def __init__(self, name, D, boxes):
        self.name, self.D, self.boxes = name, D, boxes

    def box(self, p):
        return [(f"{p}{i}", lo, hi) for i, (lo, hi) in enumerate(self.boxes)]

    def vars(self, p, I):
        return [I[f"{p}{i}"] for i in range(self.D)]

    def position(self, q):
        if self.name == "polar":
            return [q[0] * cos(q[1]), q[0] * sin(q[1])]
        if self.name == "spherical":
            return [q[0] * sin(q[1]) * cos(q[2]), q[0] * sin(q[1]) * sin(q[2]), q[0] * cos(q[1])]
        return list(q)

    def frame(self, q):
        """orthonormal frame at q: rows are the Cartesian components of the unit vectors"""
        D = self.D
        if self.name == "polar":
            c, s = cos(q[1]), sin(q[1])
            return [[c, s], [-s, c]]
        if self.name == "spherical":
            ct, st, cp, sp = cos(q[1]), sin(q[1]), cos(q[2]), sin(q[2])
            return [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, R.ZERO]]
        return [[R.ONE if i == j else R.ZERO for j in range(D)] for i in range(D)]

    def scale(self, q):
        """norms of the coordinate basis vectors"""
        if self.name == "polar":
            return [R.ONE, q[0]]
        if self.name == "spherical":
            return [R.ONE, q[0], q[0] * sin(q[1])]
        return [R.ONE] * self.D

    def cartesian(self, q, v):
        """Cartesian components of the vector with components v in the orthonormal frame at q"""
        F = self.frame(q)
        return [sum((v[i] * F[i][j] for i in range(self.D)), R.ZERO) for j in range(self.D)]

    def regular(self, q):
        """points where the coordinates are regular"""
        if self.name == "polar":
            yield "gt", q[0], 0
        if self.name == "spherical":
            yield "gt", q[0], 0
            yield "gt", sin(q[1]), 0


CART = {D: System("cartesian", D, [(-2, 2)] * D) for D in (1, 2, 3)}
POLAR = System("polar", 2, [(0.2, 2), (-3, 3)])
SPHERICAL = System("spherical", 3, [(0.2, 2), (0.1, 3), (-3, 3)])
ALL = [("cart1", CART[1]), ("cart2", CART[2]), ("cart3", CART[3]), ("polar", POLAR), ("spherical", SPHERICAL)]


def dot(u, v):
    return sum((a * b for a, b in zip(u, v)), R.ZERO)


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum(((M[0][j] if j % 2 == 0 else -M[0][j]) * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n)), R.ZERO)
