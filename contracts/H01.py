"""H01: refinement subdivides every cell into cells of equal orientation and full volume."""
import itertools, re, time
from fractions import Fraction as Fr
import z3
from engine import reals as R, frontend as F, fold, execu, ir
from engine.execu import Ex, State, Ptr, NULL, Unsupported
from . import mesh_replay

SUB, TETRA = "mito::mesh::subdivide", "mito::mesh::tetra"
CASES = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


class Nodes:
    """nodes as handles to opaque objects; a node has a point, a point has coordinates (real terms)"""

    def __init__(self, ex, D):
        self.ex, self.D = ex, D
        self.of_point, self.coords = {}, {}
        P = ex.patterns
        P.append((lambda d, f: re.search(r"CoordinateSystem<.*>::coordinates\(mito::utilities::SharedPointer", d) is not None, self.h_coordinates))
        P.append((lambda d, f: "mito::geometry::node<" in d, self.h_node))
        P.append((lambda d, f: re.search(r"^mito::geometry::GeometricSimplex<0, \d>::point\(\) const", d) is not None, self.h_point))

    def node(self, st, name, x):
        """a new node at x: the object handles point to"""
        o, p, c = [self.ex.new_obj(st, f"{t}.{name}", n, "ghost") for t, n in (("node", 64), ("point", 64), ("coordinates", 8 * self.D))]
        h = self.ex.new_obj(st, f"handle.{name}", 16, "ghost")
        st.mem[p.id][("zero",)] = ((0, 64),)
        st.mem[h.id][0] = (8, Ptr(p, 0))
        for d in range(self.D):
            st.mem[c.id][8 * d] = (8, x[d])
        o.info = (name, list(x), Ptr(h, 0))
        self.of_point[p.id] = Ptr(c, 0)
        return Ptr(o, 0)

    def put(self, st, ptr, k, n):
        """handle number k of the array at ptr := node n"""
        self.ex.store_obj(st, ptr.obj, ptr.off + 16 * k, 8, n)
        self.ex.store_obj(st, ptr.obj, ptr.off + 16 * k + 8, 8, NULL)

    def get(self, st, ptr, k=0):
        c = st.cells(ptr.obj).get(ptr.off + 16 * k)
        if c is None or not isinstance(c[1], Ptr) or c[1].obj is None or not hasattr(c[1].obj, "info"):
            raise Unsupported("handle of an unknown node")
        return c[1]

    def h_point(self, ex, st, a, I):
        if not hasattr(a[0].obj, "info"):
            raise Unsupported("point of an unknown node")
        return a[0].obj.info[2]

    def h_coordinates(self, ex, st, a, I):
        c = st.cells(a[1].obj).get(a[1].off)
        if c is None or not isinstance(c[1], Ptr) or c[1].obj.id not in self.of_point:
            raise Unsupported("coordinates of an unknown point")
        return self.of_point[c[1].obj.id]

    def h_node(self, ex, st, a, I):
        sret, cs, x = a[:3]
        v = []
        for d in range(self.D):
            c = st.cells(x.obj).get(x.off + 8 * d)
            if c is None or not isinstance(c[1], R.Node):
                raise Unsupported("coordinates of the new node")
            v.append(c[1])
        if st.ghost["cs"] != cs:
            raise Unsupported("a node placed in another coordinate system")
        k = st.ghost["created"] = st.ghost.get("created", 0) + 1
        self.put(st, sret, 0, self.node(st, f"new{k}", v))
        return None


class Bary:
    """barycentric coordinates, with respect to the vertices of the cell, of a point given by its coordinates"""

    def __init__(self, N, D):
        self.N, self.D = N, D
        self.var = [[f"p{a}_{d}" for d in range(D)] for a in range(N + 1)]

    def vertices(self):
        return [[R.var(x) for x in v] for v in self.var]

    def __call__(self, x):
        w = []
        for a in range(self.N + 1):
            e = R.subst([x[0]], {self.var[b][0]: R.ONE if a == b else R.ZERO for b in range(self.N + 1)})[0]
            f = R.evalf([e], {n: 0.37 for n in R.variables([e])})[0]
            w.append(Fr(f).limit_denominator(1 << 20))
        for d in range(self.D):
            y = sum((R.const(w[a]) * R.var(self.var[a][d]) for a in range(self.N + 1)), R.ZERO)
            if not R.NF(limit=4000).zero(x[d] - y):
                return None
        return tuple(w)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])


def disjoint(A, B):
    """no point is interior to both simplices (barycentric matrices)"""
    s = z3.Solver()
    x = [z3.Real(f"x{i}") for i in range(len(A))]
    y = [z3.Real(f"y{i}") for i in range(len(B))]
    s.add(*[v > 0 for v in x + y], z3.Sum(x) == 1, z3.Sum(y) == 1)
    for c in range(len(A[0])):
        s.add(z3.Sum([x[i] * z3.Q(A[i][c].numerator, A[i][c].denominator) for i in range(len(A))])
              == z3.Sum([y[i] * z3.Q(B[i][c].numerator, B[i][c].denominator) for i in range(len(B))]))
    return s.check() == z3.unsat


def mid(a, b):
    return tuple((x + y) / 2 for x, y in zip(a, b))


def unit(N):
    return [tuple(Fr(int(i == j)) for j in range(N + 1)) for i in range(N + 1)]


def standard(V):
    """the subdivision of a segment or a triangle by the middles of its edges, as sets of vertices"""
    if len(V) == 1:
        return {frozenset(V)}
    if len(V) == 2:
        m = mid(*V)
        return {frozenset((V[0], m)), frozenset((m, V[1]))}
    a, b, c = V
    ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
    return {frozenset(s) for s in ((a, ab, ca), (ab, b, bc), (bc, c, ca), (ab, bc, ca))}


def perm_sign(p):
    return -1 if sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 else 1


def subdivision(pieces, N):
    """obligations on the pieces (tuples of barycentric coordinates, in order): (name, holds)"""
    yield f"{2 ** N} cells", len(pieces) == 2 ** N
    ok = all(x is not None and sum(x) == 1 for p in pieces for x in p)
    yield "vertices are affine combinations of the vertices of the cell", ok
    if not ok:
        return
    yield "every cell lies in the original one", all(w >= 0 for p in pieces for x in p for w in x)
    for k, p in enumerate(pieces):
        yield f"cell {k}: orientation of the original cell, 1/{2 ** N} of its volume", det([list(x) for x in p]) == Fr(1, 2 ** N)
    for i in range(len(pieces)):
        for j in range(i):
            yield f"cells {j} and {i} do not overlap", disjoint(pieces[j], pieces[i])
    V = unit(N)
    facets = {}
    for p in pieces:
        for k in range(N + 1):
            f = [x for j, x in enumerate(p) if j != k]
            o = sorted(f)
            s = perm_sign([o.index(x) for x in f]) * (-1) ** k if len(set(f)) == len(f) else 0
            facets.setdefault(frozenset(f), []).append(s)
    for k in range(N + 1):
        on = {f for f in facets if all(x[k] == 0 for x in f)}
        yield f"face {k} is subdivided by the middles of its edges, each part once", (
            on == standard([v for j, v in enumerate(V) if j != k]) and all(len(facets[f]) == 1 for f in on))
    inner = [s for f, s in facets.items() if not any(all(x[k] == 0 for x in f) for k in range(N + 1))]
    yield "inner faces are shared by two cells with opposite orientations", all(sorted(s) == [-1, 1] for s in inner)


def proved(pc, goal):
    s = z3.Solver()
    s.add(*pc, z3.Not(goal))
    return s.check() == z3.unsat


def level(v):
    return v if z3.is_expr(v) else z3.IntVal(execu.sgn(v, 32))


def check_subdivide(ctx, mod, N, D):
    where = f"{SUB} ({N}-simplices in {D}D)"
    ex = Ex(mod, max_paths=500)
    ex.objbyid = {}
    nodes, B = Nodes(ex, D), Bary(N, D)
    st = State()
    k = z3.Int("k")
    st.pc += [k >= 1, k < 2 ** 31]
    arr = ex.new_obj(st, "nodes", 16 * (N + 1), "stack")
    cs, mesh = [Ptr(ex.new_obj(st, n, 512, "stack"), 0) for n in ("cs", "mesh")]
    for i, x in enumerate(B.vertices()):
        nodes.put(st, Ptr(arr, 0), i, nodes.node(st, f"v{i}", x))
    st.ghost["cs"] = cs
    st.ghost["pieces"] = ()

    def record(st, ns, lev):
        st.ghost["pieces"] += ((tuple(n.obj.info[1] for n in ns), lev),)

    def h_insert(ex, st, a, I):
        if a[0] != mesh:
            raise Unsupported("insertion in another mesh")
        record(st, [nodes.get(st, a[1], i) for i in range(N + 1)], z3.IntVal(0))
        return Ptr(ex.new_obj(st, "cell", 256, "ghost"), 0)

    def h_sub(ex, st, a, I):
        if not any(ex.dname(f.fn).find(SUB + "<") >= 0 for f in st.frames):
            return NotImplemented
        *ns, c, m, lev = a
        if len(ns) != N + 1 or c != cs or m != mesh:
            raise Unsupported("recursive call on other arguments")
        l = level(lev)
        if proved(st.pc, l >= 1):
            record(st, [nodes.get(st, n) for n in ns], l)
            return None
        return NotImplemented
    ex.patterns.append((lambda d, f: re.search(r"mito::mesh::Mesh<.*>::insert\(std::array<", d) is not None, h_insert))
    ex.patterns.append((lambda d, f: SUB + "<" in d, h_sub))
    t0 = time.time()
    paths = ex.run(mod.funcs[f"subdivide_{N}_{D}"], [Ptr(arr, 0), cs, mesh, k], st)
    ctx.inlined |= ex.executed
    ctx.models |= {ex.dname(mod.funcs[n])[:100] for n in ex.contracted}
    ctx.solver_time += ex.solver_time
    n = 0
    for p in paths:
        if p.status != "ret":
            if proved(p.pc, z3.BoolVal(False)):
                continue
            ctx.failed(f"{where}: no {p.status}", f"{p.retval} {p.trace[-1:]}", where=where)
            continue
        n += 1
        ctx.vacuity_ok()
        s = z3.Solver()
        s.add(*p.pc)
        s.check()
        kk = s.model().eval(k, model_completion=True)
        tag = f"{where}, path {n} (e.g. level {kk})"
        ps = p.ghost["pieces"]
        for j, (_, l) in enumerate(ps):
            yield_ob(ctx, f"{tag}: level of cell {j} is one less", proved(p.pc, l == k - 1), where)
        for name, ok in subdivision([tuple(B(x) for x in v) for v, _ in ps], N):
            yield_ob(ctx, f"{tag}: {name}", ok, where)
    if not n:
        ctx.failed(f"{where}: the function returns", "no path returns", where=where)


def yield_ob(ctx, name, ok, where):
    if ok:
        ctx.discharged(name, "z3 / exact rational arithmetic", where=where)
    else:
        ctx.failed(name, "does not hold for the cells that the function creates", where=where)


def check_tetra(ctx, mod, N, D):
    where = f"{TETRA} ({N}-simplices in {D}D)"
    ex = Ex(mod, max_paths=500)
    ex.objbyid = {}
    nodes, B = Nodes(ex, D), Bary(N, D)
    st = State()
    k = z3.Int("k")
    st.pc += [k >= 0, k < 2 ** 31]
    cs, mesh, out = [Ptr(ex.new_obj(st, n, 512, "stack"), 0) for n in ("cs", "mesh", "refined")]
    st.ghost["cs"] = cs
    st.ghost["cells"] = ()
    cell = ex.new_obj(st, "a cell", 256, "ghost")
    arr = ex.new_obj(st, "its nodes", 16 * (N + 1), "ghost")
    for i, x in enumerate(B.vertices()):
        nodes.put(st, Ptr(arr, 0), i, nodes.node(st, f"v{i}", x))

    def target(st, m):
        if m.obj not in [o for o, _ in st.ghost.get("fresh", ())]:
            raise Unsupported("insertion in a mesh that was not created here")
        return m

    def h_ctor(ex, st, a, I):
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + ((a[0].obj, a[0].off),)
        return None

    def h_move(ex, st, a, I):
        if a[1].obj not in [o for o, _ in st.ghost.get("fresh", ())]:
            raise Unsupported("move of an unknown mesh")
        st.ghost["fresh"] = tuple(x for x in st.ghost["fresh"] if x[0] is not a[1].obj) + ((a[0].obj, a[0].off),)
        return None

    def elem(ex, st, container, lp):
        if container.obj is not mesh.obj:
            raise Unsupported("iteration over another container")
        return Ptr(cell, 0)

    def h_nodes(ex, st, a, I):
        if a[0].obj is not cell:
            raise Unsupported("nodes of an unknown cell")
        return Ptr(arr, 0)

    def h_insert(ex, st, a, I):
        target(st, a[0])
        st.ghost["cells"] += ((tuple(nodes.get(st, a[1], i).obj.info[1] for i in range(N + 1)), z3.IntVal(0)),)
        return Ptr(ex.new_obj(st, "cell", 256, "ghost"), 0)

    def h_sub(ex, st, a, I):
        *ns, c, m, lev = a
        l = level(lev)
        if c != cs or not proved(st.pc, l >= 1):
            raise Unsupported("subdivision at a level that may not be positive")
        target(st, m)
        st.ghost["cells"] += ((tuple(nodes.get(st, n).obj.info[1] for n in ns), l),)
        return None
    M = rf"mito::mesh::Mesh<mito::geometry::GeometricSimplex<{N}, {D}>>::"
    for pat, h in ((M + r"Mesh\(\)", h_ctor), (M + r"Mesh\(mito::mesh::Mesh", h_move), (M + r"insert\(std::array<", h_insert),
                   (M + r"~Mesh\(\)", lambda *a: None), (M + r"cells\(\)", lambda ex, st, a, I: a[0]), (SUB + "<", h_sub),
                   (r"^mito::geometry::GeometricSimplex<\d, \d>::nodes\(\)", h_nodes)):
        ex.patterns.append((lambda d, f, pat=pat: re.search(pat, d) is not None, h))
    loops = fold.Fold(ex, elem)
    loops.install(fold.SEGVEC)
    paths = ex.run(mod.funcs[f"tetra_{N}_{D}"], [mesh, cs, out, k], st)
    ctx.inlined |= ex.executed
    ctx.models |= {ex.dname(mod.funcs[n])[:100] for n in ex.contracted}
    zero, pos = 0, 0
    for p in paths:
        if proved(p.pc, z3.BoolVal(False)):
            continue
        if p.status == "iteration":
            c = p.ghost["cells"]
            iz, ip = not proved(p.pc, k != 0), not proved(p.pc, k == 0)
            zero, pos = zero + iz, pos + ip
            name = f"{where}: a cell of the mesh is " + ("inserted as it is at level 0" if iz else "subdivided at the level requested")
            ok = len(c) == 1 and not (iz and ip)
            if ok:
                v, l = c[0]
                v = [B(x) for x in v]
                U = unit(N)
                ok = set(v) == set(U) and perm_sign([U.index(x) for x in v]) == 1 and proved(p.pc, l == k)
            yield_ob(ctx, name, ok, where)
            ctx.vacuity_ok()
        elif p.status == "ret":
            yield_ob(ctx, f"{where}: no other cell is inserted ({'exit' if p.ghost.get('loops') and p.ghost['loops'][-1][1] == 'exit' else 'empty mesh'}"
                     f"{', level 0' if not proved(p.pc, k != 0) else ''})", not p.ghost["cells"] and [o for o, _ in p.ghost.get("fresh", ())] == [out.obj], where)
        else:
            ctx.failed(f"{where}: no {p.status}", f"{p.retval} {p.trace[-1:]}", where=where)
    yield_ob(ctx, f"{where}: all cells of the mesh are visited, at level 0 and at positive levels", zero == 1 and pos == 1, where)


def run(ctx):
    ctx.assume("doubles are read as real numbers",
               "contract on CoordinateSystem::coordinates: it returns the coordinates the point was placed at; contract on geometry::node: a new node at the coordinates given",
               "contract on Mesh::insert: one more cell with the nodes given (H02); iteration over Mesh::cells visits every cell once (verified for the containers: U03)",
               "recursive calls of subdivide are taken by the contract under verification, at a smaller positive level (induction on the level)",
               "neighbouring cells: on a shared face each neighbour places the middles of the edges; conformity is geometric (each cell creates its own nodes)")
    try:
        mod = ir.Module(F.bitcode(F.harness("subdivide.cc"), "O0raw"))
    except F.BuildError as e:
        ctx.notes.append(f"clang rejects the current tree ({str(e)[-300:]})")
        return fallback(ctx)
    for N, D in CASES:
        for f in (check_subdivide, check_tetra):
            try:
                f(ctx, mod, N, D)
            except Unsupported as e:
                ctx.notes.append(f"{f.__name__} {N} {D}: {e}")
                mesh_replay.stand_in(ctx, "H01", f"{f.__name__} ({N}-simplices in {D}D): {e}", SUB)
    if ctx.failures:
        mesh_replay.replay(ctx, "H01")


def fallback(ctx):
    mesh_replay.stand_in(ctx, "H01", "refinement", SUB)
