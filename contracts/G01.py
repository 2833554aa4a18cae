"""G01: coordinate transformations are mutually inverse and preserve the point."""
from engine import reals as R
from engine.numeric import Harness, Contract
from .geometry_spec import CART, POLAR, SPHERICAL, sin

WHERE = "mito::geometry::transform_coordinates"


def run(ctx):
    H = Harness(ctx, "geometry.cc")
    ctx.assume("doubles are read as real numbers",
               "atan2(y, x) is the angle in (-pi, pi] with sine y/sqrt(x^2+y^2) and cosine x/sqrt(x^2+y^2); hypot(x, y) is sqrt(x^2+y^2); addition theorems of sin and cos",
               "precondition: the points where the curvilinear coordinates are regular (r > 0, sin(theta) > 0, angles in the principal range)")
    for name, S in (("polar", POLAR), ("spherical", SPHERICAL)):
        D, C = S.D, CART[S.D]

        def there(I, O, S=S, C=C, D=D):
            x, q, y = C.vars("x", I), O[:D], O[D:2 * D]
            for i, e in enumerate(S.position(q)):
                yield f"the {S.name} coordinates denote the same point [{i}]", e, x[i]
            for i in range(D):
                yield f"cartesian -> {S.name} -> cartesian [{i}]", y[i], x[i]
            yield "radius is not negative", ">=0", q[0]

        def off(I, S=S, C=C):
            x = C.vars("x", I)
            yield "gt", x[0] * x[0] + x[1] * x[1], 0
        Contract(H, f"cart_{name}", C.box("x"), 2 * D, there, requires=off, where=WHERE, label=f"cartesian to {name}").check()

        def back(I, O, S=S, D=D):
            q, x, p = S.vars("q", I), O[:D], O[D:2 * D]
            for i, e in enumerate(S.position(q)):
                yield f"the cartesian coordinates denote the same point [{i}]", x[i], e
            yield f"{S.name} -> cartesian -> {S.name}: radius", p[0], q[0]
            for i in range(1, D):
                yield f"{S.name} -> cartesian -> {S.name}: angle {i}", "angle", p[i], q[i]
        Contract(H, f"{name}_cart", S.box("q"), 2 * D, back, requires=lambda I, S=S: S.regular(S.vars("q", I)),
                 positive={"q0"}, where=WHERE, label=f"{name} to cartesian").check()
    # coordinate systems: an arbitrary entry of a system, the system made of it by a change of coordinates
    from . import sums_spec as SS
    C = Harness(ctx, "convert.cc", "O0raw")
    ctx.assume("std::unordered_map satisfies its specification (a ghost map; a loop visits every entry once)")
    C.setup = lambda ex, st: SS.MapLoops(ex, None)
    sys2 = {"c2": CART[2], "pol": POLAR, "c3": CART[3], "sph": SPHERICAL}
    for a, b in (("c2", "pol"), ("pol", "c2"), ("c3", "sph"), ("sph", "c3")):
        A, B = sys2[a], sys2[b]
        D = A.D

        def moved(I, O, A=A, B=B, D=D):
            x = A.vars("x", I)
            for i in range(D):
                yield f"a point has the coordinates it was placed at [{i}]", O[i], x[i]
            for i, (e, f) in enumerate(zip(A.position(x), B.position(O[D:2 * D]))):
                yield f"the coordinates in the other system denote the same point [{i}]", f, e

        def regular(I, A=A, B=B):
            x = A.vars("x", I)
            if A.name == "cartesian":
                yield "gt", x[0] * x[0] + x[1] * x[1], 0
            else:
                yield from A.regular(x)
        Contract(C, f"convert_{a}_{b}", A.box("x"), 2 * D, moved, requires=regular, positive={"x0"} if A.name != "cartesian" else (),
                 where="mito::geometry::CoordinateSystem (change of coordinates)", label=f"coordinate system of {B.name} coordinates from {A.name} coordinates").check()
    for a, A in sys2.items():
        D = A.D

        def there(I, O, A=A, D=D):
            x, y = A.vars("x", I), A.vars("y", I)
            for i in range(D):
                yield f"two points have the coordinates they were placed at [{i}]", O[i], x[i]
                yield f"two points have the coordinates they were placed at (second) [{i}]", O[D + i], y[i]
                yield f"the origin has zero coordinates [{i}]", O[2 * D + i], R.ZERO
        Contract(C, f"placed_{a}", A.box("x") + A.box("y"), 3 * D, there, where="mito::geometry::CoordinateSystem::place, coordinates", label=f"points in {A.name} coordinates {D}D").check()
