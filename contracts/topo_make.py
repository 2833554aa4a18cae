"""Simplices from vertices: canonical form of the compositions and the contracts on creation and vertices.

The vertices of a simplex, from the fields (V = vertices of the footprint, the first two swapped if the orientation is -1):
  V1(u) = (FP C(u,0), FP C(u,1))
  V2(u) = (tail C(u,0), head C(u,0), head C(u,1))
  V3(u) = (vertices of C(u,0), the vertex of C(u,1) that is not among them)
Canonical form of the footprints (an invariant; simplices do not change, so it is kept by every call):
  can1(u): OR C(u,0) = -1, OR C(u,1) = +1, two distinct vertices
  can2(u): head C(u,i) = tail C(u,i+1) cyclically, three distinct vertices
  can3(u): for some even permutation (p,q,r) of the vertices of C(u,0) and a vertex s, the facets 1, 2, 3 have the
           vertices (q,s,r), (s,q,p), (s,p,r) up to even permutations; four distinct vertices
"""
import itertools
import z3
from engine.execu import Ptr, NULL, Unsupported, PathLimit
from .pool_spec import iv, ir_ptr
from .topo_spec import (Job, Snap, Topo, I_, sort_terms, perm_sign, parity, topology, factory, VALID, same_maps, frame, ri_post)
from . import topo_spec as TS, pool_spec as PS

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies


def swapif(o, v):
    return [If(o == -1, v[1], v[0]), If(o == -1, v[0], v[1])] + list(v[2:])


def even(a, b):
    """a is an even permutation of b"""
    return Or(*[And(*[a[i] == b[p[i]] for i in range(len(b))]) for p in itertools.permutations(range(len(b))) if parity(p) > 0])


def same_set(a, b):
    return Or(*[And(*[a[i] == b[p[i]] for i in range(len(b))]) for p in itertools.permutations(range(len(b)))])


class Geo:
    """vertices and canonical forms over a snapshot; ghost: vertices of triangles as functions (for the tetrahedra)"""

    def __init__(self, S, ghost2=False):
        self.S, self.ghost2 = S, ghost2

    def V(self, N, u):
        S = self.S
        if N == 1:
            return [S.FP(S.C(u, 0)), S.FP(S.C(u, 1))]
        if N == 2:
            if self.ghost2:
                return [z3.Function(f"VT{i}", I_, I_)(u) for i in range(3)]
            e0, e1 = S.C(u, 0), S.C(u, 1)
            a = self.vert(1, e0)
            return a + [self.vert(1, e1)[1]]
        t0, t1 = S.C(u, 0), S.C(u, 1)
        a = self.vert(2, t0)
        b = self.vert(2, t1)
        x = b[2]
        for y in (b[1], b[0]):
            x = If(And(*[y != z for z in a]), y, x)
        return a + [x]

    def vert(self, N, s):
        return swapif(self.S.OR(s), self.V(N, self.S.FP(s)))

    def can(self, N, u):
        S = self.S
        if N == 1:
            a = self.V(1, u)
            return And(S.OR(S.C(u, 0)) == -1, S.OR(S.C(u, 1)) == 1, a[0] != a[1], a[0] > 0, a[1] > 0, S.C(u, 0) > 0, S.C(u, 1) > 0)
        if N == 2:
            if self.ghost2:
                return And(z3.Distinct(*self.V(2, u)), *[x > 0 for x in self.V(2, u)])
            e = [self.vert(1, S.C(u, i)) for i in range(3)]
            return And(*[S.C(u, i) > 0 for i in range(3)], *[S.FP(S.C(u, i)) > 0 for i in range(3)], *[self.can(1, S.FP(S.C(u, i))) for i in range(3)], *[self.sgn(S.C(u, i)) for i in range(3)],
                       *[e[i][1] == e[(i + 1) % 3][0] for i in range(3)], z3.Distinct(*[x[0] for x in e]))
        t = [self.vert(2, S.C(u, i)) for i in range(4)]
        s = self.V(3, u)[3]
        alt = []
        for r in range(3):
            p, q, w = (t[0] + t[0])[r:r + 3]
            alt.append(And(even(t[1], [q, s, w]), even(t[2], [s, q, p]), even(t[3], [s, p, w])))
        return And(*[S.C(u, i) > 0 for i in range(4)], *[S.FP(S.C(u, i)) > 0 for i in range(4)], *[self.can(2, S.FP(S.C(u, i))) for i in range(4)], *[self.sgn(S.C(u, i)) for i in range(4)],
                   z3.Distinct(*t[0], s), Or(*alt))

    def sgn(self, s):
        return Or(self.S.OR(s) == 1, self.S.OR(s) == -1)

    def induced(self, N, c):
        """the composition c is the one its vertices induce"""
        S = self.S
        if N == 1:
            return And(S.OR(c[0]) == -1, S.OR(c[1]) == 1, S.FP(c[0]) != S.FP(c[1]))
        v = [self.vert(N - 1, x) for x in c]
        if N == 2:
            return And(*[v[i][1] == v[(i + 1) % 3][0] for i in range(3)], z3.Distinct(*[x[0] for x in v]))
        # (p, q, r) and s are given
        alt = []
        for k in range(3):
            s = v[1][k]
            for r in range(3):
                p, q, w = (v[0] + v[0])[r:r + 3]
                alt.append(And(z3.Distinct(p, q, w, s), even(v[1], [q, s, w]), even(v[2], [s, q, p]), even(v[3], [s, p, w])))
        return Or(*alt)

    # identity of the footprints: the invariants key and u (segments, triangles), as functions of the vertices
    def SEG(self, a, b):
        return self.S.comp(1, sort_terms([a, b]))

    def TRI(self, a, b, c):
        return self.S.comp(2, sort_terms([self.SEG(a, b), self.SEG(b, c), self.SEG(c, a)]))

    def reg1(self, u):
        return self.SEG(*self.V(1, u)) == u


def live_simplex(st, J, N, name="s"):
    """a live oriented simplex with a canonical footprint"""
    T = J.T
    s = z3.Int(name)
    T.nonnull(st, s)
    name_tree(st, J, N, s)
    S = Snap(T, st)
    u = S.FP(s)
    T.nonnull(st, u)
    g = Geo(S)
    st.pc += [S.L("s", N, s), g.sgn(s)]
    if N:
        st.pc += [g.can(N, u)]
    return s


def name_tree(st, J, N, s, foot=False, depth=9):
    """names for the fields that the simplex s (the footprint s) reaches: constants instead of selections"""
    T = J.T
    kn = dict(st.ghost.get("known") or {})
    d = dict(st.ghost.get("nonnull", {}))
    n = [0]

    def name(off, size, x, nm):
        x = z3.simplify(x)
        k = (off, size, x.get_id())
        if k not in kn:
            c = z3.Int(f"{x}.{nm}")
            kn[k] = (c, x)
            if nm != "o":
                d[c.get_id()] = c
                st.pc.append(c > 0)
        return kn[k][0]

    def orient(N, x, depth):
        f = name(T.o_fp, 8, x, "f")
        name(T.o_or, 4, x, "o")
        plain(N, f, depth)

    def plain(N, u, depth):
        if N == 0 or depth == 0:
            return
        for i in range(N + 1):
            orient(N - 1, name(T.o_c + 8 * i, 8, u, str(i)), depth - 1)
    d[z3.simplify(s).get_id()] = s
    plain(N, s, depth) if foot else orient(N, s, depth)
    st.ghost["known"], st.ghost["nonnull"] = kn, d


def job_vertices(ctx, T, N, part=None):
    J = Job(ctx, T, f"OrientedSimplex<{N}>::vertices()")

    def setup(ex, st, J):
        J.s = live_simplex(st, J, N)
        h = T.handles(ex, st, [J.s], "simplex")
        J.out = T.out(ex, st, 8 * (N + 1))
        if N == 3:
            # canonical form with witnesses
            w = J.w = z3.Ints("p q r s")
            S = Snap(T, st)
            g = Geo(S)
            u = S.FP(J.s)
            t = [S.C(u, i) for i in range(4)]
            W = [[w[i] for i in k] for k in ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2))]
            T.nonnull(st, *w)
            light = [z3.Distinct(*w), *[x > 0 for x in w], g.sgn(J.s), *[g.sgn(x) for x in t]]
            light += [c > 0 for (off, n, _), (c, x) in st.ghost["known"].items() if (off, n) != (T.o_or, 4)]
            full = [even(g.vert(2, x), y) for x, y in zip(t, W)]
            fm = Forms(T, J.pv, ctx, J.title, st)
            es = [S.C(S.FP(x), i) for x in t[:2] for i in range(3)]
            light += [g.sgn(e) for e in es]
            if part in (None, 0):
                s = st.fork()
                ok = J.pv.valid(s, Or(*[And(*[z3.substitute(f, (w[0], a), (w[1], b), (w[2], c), (w[3], g.V(3, u)[3])) for f in full])
                                        for a, b, c in [(g.vert(2, t[0]) * 2)[k:k + 3] for k in range(3)]]))
                (ctx.discharged if ok else ctx.failed)(f"{J.title}: the canonical form has witnesses", "z3" if ok else str(J.pv.last), where=J.title)
                st.pc += full
                ok = J.pv.valid(st, even(g.V(3, u), w))
                (ctx.discharged if ok else ctx.failed)(f"{J.title}: the witnesses are the vertices", "z3" if ok else str(J.pv.last), where=J.title)
                for x, y in zip(t[:2], W):
                    fm.check(S, x, y)
            J.cases = []
            allc = list(itertools.product([(r, o) for r in range(3) for o in (1, -1)], repeat=2))
            allc = [(c, o) for c in allc for o in (1, -1)]
            for cs, o in (allc if part is None else allc[part[0]::part[1]] if isinstance(part, tuple) else ()):
                def case(s, cs=cs, o=o):
                    s.pc = list(light)
                    T.apart(s, *w)
                    for x, y, (r, oo) in zip(t, W, cs):
                        fm.apply(s, S, x, y, r, oo)
                    kn = dict(s.ghost["known"])
                    kn[(T.o_or, 4, J.s.get_id())] = (z3.IntVal(o), J.s)
                    s.ghost["known"] = kn
                    s.ghost["OR"] = o
                J.cases.append(case)
        return f"os_vertices_{N}", [Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        v = [T.outv(ex, st, J.out, i) for i in range(N + 1)]
        g = Geo(S)
        want = g.vert(N, J.s) if N < 3 else swapif(z3.IntVal(st.ghost["OR"]), J.w)
        yield f"the simplex has {N + 1} distinct vertices", z3.Distinct(*v)
        yield "they are the vertices of the simplex, in an order of its orientation", even(v, want)
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post, contracts=SETS if N == 3 else ())


def job_vertex_set(ctx, T, N):
    J = Job(ctx, T, f"Simplex<{N}>::vertices()")

    def setup(ex, st, J):
        u = J.u = z3.Int("u")
        T.nonnull(st, u)
        name_tree(st, J, N, u, True)
        S = Snap(T, st)
        st.pc += [S.L("u", N, u), Geo(S).can(N, u)]
        h = T.handles(ex, st, [u], "simplex")
        J.out = T.out(ex, st, 8 * 8)
        return f"us_vertices_{N}", [Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        yield f"the set has {N + 1} vertices", iv(st.retval) == N + 1
        v = [T.outv(ex, st, J.out, i) for i in range(N + 1)]
        yield "they are the vertices of the simplex", And(z3.Distinct(*v), same_set(v, Geo(S).V(N, J.u)))
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post, contracts=SETS if N == 3 else ())


def c_vertex_set(N):
    """Simplex<N>::vertices() (verified: job_vertex_set)"""
    def h(ex, st, d, a, I):
        T = ex.topo
        u = T.num(ex, a[1])
        S = Snap(T, st)
        st.obls.append(("the vertices of a canonical simplex are taken", Geo(S).can(N, u)))
        st.ghost[("sset", a[0].obj.id, a[0].off)] = tuple(z3.simplify(x) for x in Geo(S).V(N, u))
        return None
    return h


SETS = {r"^mito::topology::Simplex<2>::vertices\(\) const": c_vertex_set(2), r"^mito::topology::Simplex<1>::vertices\(\) const": c_vertex_set(1)}


def job_composition(ctx, T, N):
    J = Job(ctx, T, f"OrientedSimplex<{N}>::composition()")

    def setup(ex, st, J):
        s = J.s = z3.Int("s")
        S = Snap(T, st)
        g = Geo(S)
        T.nonnull(st, s, S.FP(s))
        st.pc += [S.L("s", N, s), g.sgn(s)]
        h = T.handles(ex, st, [s], "simplex")
        J.out = T.out(ex, st, 8 * (N + 1))
        return f"os_composition_{N}", [Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        v = [T.outv(ex, st, J.out, i) for i in range(N + 1)]
        c = [S.C(S.FP(J.s), i) for i in range(N + 1)]
        yield "the facets are those of the footprint, in an order of the orientation of the simplex", Implies(
            z3.Distinct(*c), perm_sign(v, c) == S.OR(J.s))
        if N == 1:
            yield "the facets of a segment are its two ends, in the order of the segment", And(*[a == b for a, b in zip(v, swapif(S.OR(J.s), c))])
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


class Forms:
    """normal forms of triangles: the fields of a canonical triangle whose vertices are an even permutation of (a, b, c),
    case by case (rotation, orientation); every canonical triangle is in one of these forms (an obligation)"""

    def __init__(self, T, pv, ctx, title, st, shared=False):
        self.T, self.pv, self.ctx, self.title, self.st, self.shared = T, pv, ctx, title, st, shared
        self.E, self.o = {}, {}

    def edge(self, a, b):
        """shared edges: the footprint of the edge (a, b) and the orientation of the edge from a to b"""
        k = frozenset((a.get_id(), b.get_id()))
        if k not in self.E:
            n = len(self.E)
            self.E[k] = (z3.Int(f"edge{n}"), z3.Int(f"o_edge{n}"), a)
        G, o, x = self.E[k]
        return G, (o if x is a else -o)

    def equations(self, S, t, w, rot, o):
        T = self.T
        v = (list(w) + list(w))[rot:rot + 3]
        v = swapif_(o, v)
        f = S.FP(t)
        out = [((T.o_or, 4, t), z3.IntVal(o))]
        for i in range(3):
            a, b = v[i], v[(i + 1) % 3]
            e = S.C(f, i)
            if self.shared:
                G, oe = self.edge(a, b)
                out += [((T.o_fp, 8, e), G), ((T.o_or, 4, e), oe)]
            else:
                be = z3.Bool(f"{e}.b")
                oe = If(be, z3.IntVal(1), z3.IntVal(-1))
                out.append(((T.o_or, 4, e), oe))
            g = S.FP(e)
            x0, x1 = S.C(g, 0), S.C(g, 1)
            if not self.shared:
                out += [((T.o_or, 4, x0), z3.IntVal(-1)), ((T.o_or, 4, x1), z3.IntVal(1)),
                        ((T.o_fp, 8, x0), If(be, a, b)), ((T.o_fp, 8, x1), If(be, b, a))]
        return out

    def check(self, S, t, w, definitions=()):
        """the cases are exhaustive"""
        fs = []
        for rot in range(3):
            for o in (1, -1):
                fs.append(And(*[S.at(off, n, x) == v for (off, n, x), v in self.equations(S, t, w, rot, o)]))
        s = self.st.fork()
        s.pc += list(definitions)
        if not self.shared:
            s.pc += [z3.Bool(f"{e}.b") == (S.OR(e) == 1) for e in (S.C(S.FP(t), i) for i in range(3))]
        ok = self.pv.valid(s, Or(*fs))
        (self.ctx.discharged if ok else self.ctx.failed)(f"{self.title}: normal forms of the facets are exhaustive", "z3" if ok else str(self.pv.last), where=self.title)

    def apply(self, st, S, t, w, rot, o):
        kn = dict(st.ghost["known"])
        for (off, n, x), v in self.equations(S, t, w, rot, o):
            k = (off, n, z3.simplify(x).get_id())
            old = kn[k][0]
            kn[k] = (v, kn[k][1])
        st.ghost["known"] = kn


def swapif_(o, v):
    return [v[1], v[0], v[2]] if o == -1 else list(v)


def job_valid(ctx, T, N, part=None):
    J = Job(ctx, T, f"isValid<{N}>(composition)")

    def setup(ex, st, J):
        c = J.c = [live_simplex(st, J, N - 1, f"c{i}") for i in range(N + 1)]
        S = Snap(T, st)
        g = Geo(S)
        h = T.handles(ex, st, c, "composition")
        if N == 3:
            w = z3.Ints("p q r s")
            W = [[w[i] for i in k] for k in ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2))]
            T.nonnull(st, *w)
            light = [z3.Distinct(*w)]
            st.pc += light + [even(g.vert(2, x), y) for x, y in zip(c, W)]
            # registration of the edges (same vertices, same edge) and their first vertices
            first = z3.Function("first", I_, I_)
            E = [S.C(S.FP(x), i) for x in c for i in range(3)]
            st.pc += [g.reg1(S.FP(e)) for e in E] + [S.FP(e) > 0 for e in E] + [S.FP(S.C(S.FP(e), 0)) == first(S.FP(e)) for e in E]
            fm = Forms(T, J.pv, ctx, J.title, st, True)
            for x in itertools.combinations(w, 2):
                fm.edge(*x)
            defs = []
            for k, (G, o, x) in fm.E.items():
                y = [z for z in w if z.get_id() in k and z is not x][0]
                defs += [G == g.SEG(x, y), o == If(first(G) == x, 1, -1)]
            G6 = [G for G, o, x in fm.E.values()]
            light += [z3.Distinct(*G6)] + [G > 0 for G in G6] + [Or(o == 1, o == -1) for G, o, x in fm.E.values()]
            if part in (None, 0):
                for x, y in zip(c, W):
                    fm.check(S, x, y, defs)
                s = st.fork()
                s.pc += defs
                # six edges: an edge registered under two pairs of vertices would have both
                s.pc += [S.ri_key(1, sort_terms([x, y])) for x, y in itertools.combinations(w, 2)]
                key1 = [Implies(G > 0, And(*[p == q for p, q in zip(sort_terms([first(G), z3.Function("second", I_, I_)(G)]), sort_terms([x, y]))]))
                        for (G, o, _), (x, y) in zip(fm.E.values(), itertools.combinations(w, 2))]
                s.pc += key1
                s.pc += [G > 0 for G in G6]
                ok = J.pv.valid(s, z3.Distinct(*G6))
                (ctx.discharged if ok else ctx.failed)(f"{J.title}: the edges of four vertices are distinct", "z3" if ok else str(J.pv.last), where=J.title)
            J.cases = []
            allc = list(itertools.product([(r, o) for r in range(3) for o in (1, -1)], repeat=4))
            for cs in (allc if part is None else allc[part[0]::part[1]] if isinstance(part, tuple) else ()):
                def case(s, cs=cs):
                    s.pc = list(light)
                    T.apart(s, *w)
                    T.apart(s, *G6)
                    for x, y, (r, o) in zip(c, W, cs):
                        fm.apply(s, S, x, y, r, o)
                J.cases.append(case)
        else:
            st.pc.append(g.induced(N, c))
        return f"valid_{N}", [Ptr(h, 0)]

    def post(ex, st, S, J):
        yield "the composition that vertices induce is valid", iv(st.retval) != 0
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


# ------------------------------------------------------------------ contracts used by callers
def ret(ex, st, a, v):
    ex.store(st, a[0], v, ir_ptr())


def c_segment(J):
    """Topology::segment(vertices): a segment with these vertices in this order, registered under them"""
    def h(ex, st, d, a, I):
        T = J.T
        v = T.elems(ex, st, a[2], 2, True)
        s = z3.FreshConst(I_, "seg")
        S = Snap(T, st)
        g = Geo(S)
        st.obls.append(("segments are requested with two distinct vertices", And(v[0] != v[1], v[0] > 0, v[1] > 0)))
        T.nonnull(st, s, S.FP(s))
        st.pc += [S.L("s", 1, s), g.sgn(s), g.can(1, S.FP(s)), S.FP(s) == g.SEG(*v), *[x == y for x, y in zip(g.vert(1, s), v)]]
        T.nonnull(st, S.C(S.FP(s), 0), S.C(S.FP(s), 1), *g.V(1, S.FP(s)))
        ret(ex, st, a, s)
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((1, tuple(v), s),)
    return h


def c_triangle(J):
    """Topology::triangle(vertices)"""
    def h(ex, st, d, a, I):
        T = J.T
        v = T.elems(ex, st, a[2], 3, True)
        s = z3.FreshConst(I_, "tri")
        S = Snap(T, st)
        g = Geo(S, True)
        st.obls.append(("triangles are requested with three distinct vertices", And(z3.Distinct(*v), *[x > 0 for x in v])))
        T.nonnull(st, s, S.FP(s))
        st.pc += [S.L("s", 2, s), g.sgn(s), g.can(2, S.FP(s)), even(g.vert(2, s), v)]
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((2, tuple(v), s),)
        # uniqueness: triangles with the same three vertices have the same footprint
        for n, w, t in st.ghost["calls"]:
            if n == 2 and t is not s:
                st.pc.append(Implies(same_set(v, w), S.FP(s) == S.FP(t)))
        ret(ex, st, a, s)
    return h


def c_simplex(J, N):
    """Topology::simplex<N>(composition): the contract of the factory (verified: job_of_comp), with the invariants of
    the footprint that is found; a new footprint has the facets given"""
    def h(ex, st, d, a, I):
        T = J.T
        c = T.elems(ex, st, a[2], N + 1, True)
        s = z3.FreshConst(I_, "simplex")
        S = Snap(T, st)
        g = Geo(S, N == 3)
        st.obls.append(("the composition passed is the one that the vertices induce", g.induced(N, c)))
        st.obls.append(("the facets passed are live and distinct", And(*[S.L("s", N - 1, x) for x in c], z3.Distinct(*[S.FP(x) for x in c]))))
        u = S.FP(s)
        T.nonnull(st, s, u)
        fu, fc = S.fps(N, u), [S.FP(x) for x in c]
        J.u, J.res, J.comp = u, s, c
        was = z3.FreshBool("existed")
        J.was = was
        st.pc += [S.L("s", N, s), S.L("u", N, u), u == S.comp(N, sort_terms(fc)), *[x == y for x, y in zip(sort_terms(fc), S.key(N, u))],
                  S.OR(s) == perm_sign(fc, fu), If(was, g.can(N, u), And(*[S.C(u, i) == c[i] for i in range(N + 1)])), z3.Distinct(*fu)]
        ret(ex, st, a, s)
    return h


def c_vertices(J, N):
    """OrientedSimplex<N>::vertices() (verified: job_vertices)"""
    def h(ex, st, d, a, I):
        T = J.T
        s = a[1]
        S = Snap(T, st)
        g = Geo(S, N == 3)
        s = T.num(ex, s)
        st.obls.append(("the vertices of a canonical simplex are taken", And(g.can(N, S.FP(s)), g.sgn(s))))
        v = [z3.FreshConst(I_, "v") for _ in range(N + 1)]
        st.pc += [even(v, g.vert(N, s)), z3.Distinct(*v)]
        T.nonnull(st, *v)
        for i, x in enumerate(v):
            ex.store(st, ex.padd(a[0], 8 * i), x, ir_ptr())
    return h


V_ = r"std::array<mito::utilities::SharedPointer<mito::topology::Simplex<0> const>, %d"


def job_make(ctx, T, N, perm=None):
    names = {1: "segment", 2: "triangle", 3: "tetrahedron"}
    J = Job(ctx, T, f"Topology::{names[N]}(vertices)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        v = J.v = [z3.Int(f"v{i}") for i in range(N + 1)]
        T.nonnull(st, *v)
        st.pc.append(z3.Distinct(*v))
        S = Snap(T, st)
        st.pc += [S.L("u", 0, x) for x in v]
        h = T.handles(ex, st, v, "vertices")
        J.out = T.out(ex, st)
        return f"t_make_{N}", [t, Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        s = T.outv(ex, st, J.out)
        u = S.FP(s)
        g = Geo(S, N == 3)
        yield "the footprint is in canonical form", g.can(N, u)
        yield "the vertices of the simplex are those requested, in an order of the same parity", even(g.vert(N, s), J.v)
        yield "the orientation is +1 or -1", g.sgn(s)
        if N == 1:
            yield "a segment keeps the order of its vertices", And(*[a == b for a, b in zip(g.vert(1, s), J.v)])
            yield "the footprint is a function of the set of vertices", u == g.SEG(*J.v)
        if N == 2:
            yield "the footprint is a function of the set of vertices", And(*[u == g.TRI(*[J.v[i] for i in p]) for p in itertools.permutations(range(3))])
            # facets
            v = J.v
            f = [S.C(u, i) for i in range(3)]
            for a, b in ((0, 1), (1, 2), (2, 0)):
                yield "each facet, with the orientation of the simplex, is the one the vertices induce", Or(*[
                    And(S.FP(x) == g.SEG(v[a], v[b]), *[y == z for y, z in zip(g.vert(1, x), [If(S.OR(s) == 1, v[a], v[b]), If(S.OR(s) == 1, v[b], v[a])])]) for x in f])
        if N == 3:
            v = J.v
            f = [S.C(u, i) for i in range(4)]
            for p in ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2)):
                w = [v[i] for i in p]
                yield "each facet, with the orientation of the simplex, is the one the vertices induce", Or(*[
                    even(g.vert(2, x), [If(S.OR(s) == 1, w[0], w[1]), If(S.OR(s) == 1, w[1], w[0]), w[2]]) for x in f])
            yield "the footprint is that of the four facets that the vertices induce", u == S.comp(3, sort_terms([S.FP(x) for x in J.comp]))

    if N == 1:
        def run_setup(ex, st, J):
            r = setup(ex, st, J)
            return r
        # fully executed: factories of order 0 and 1
        def post1(ex, st, S, J):
            S0 = J.S0
            s = T.outv(ex, st, J.out)
            k = sort_terms(J.v)
            # invariants of the footprint, had it existed
            u0 = S0.comp(1, k)
            g0 = Geo(S0)
            st.pc += [Implies(S0.L("u", 1, u0), g0.can(1, u0)), S0.ri_key(1, k), S0.ri_u(1, u0)]
            yield "the segment registered for these vertices is used if there is one", Implies(u0 != 0, S.FP(s) == u0)
            yield from post(ex, st, S, J)
            yield from frame(J, S, st)
            yield from ri_post(J, S, 1, st)
            yield from ri_post(J, S, 0, st)

        def instance(ex, st, J):
            S = Snap(T, st)
            g = Geo(S)
            u0 = S.comp(1, sort_terms(J.v))
            st.pc += [Implies(S.L("u", 1, u0), g.can(1, u0)), Implies(u0 != 0, S.L("u", 1, u0))]
            for v, o in itertools.product(J.v, (-1, 1)):
                st.pc += [S.ri_uo(0, v, z3.IntVal(o))]
            st.pc += [S.ri_uo(1, u0, z3.IntVal(o)) for o in (-1, 1)]

        def setup1(ex, st, J):
            r = setup(ex, st, J)
            instance(ex, st, J)
            return r
        J.run(setup1, post1)
        return
    C = {}
    if N == 2:
        C[r"^mito::topology::Topology::segment\(" + V_ % 2] = c_segment(J)
    else:
        C[r"^mito::topology::Topology::triangle\(" + V_ % 3] = c_triangle(J)
    C[rf"mito::topology::Topology::simplex<{N}>\(std::array<mito::utilities::SharedPointer<mito::topology::OrientedSimplex<{N} - 1>"] = c_simplex(J, N)
    C[rf"^mito::topology::OrientedSimplex<{N}>::vertices\(\) const"] = c_vertices(J, N)
    J.run(setup, post, contracts=C)


def job_comp(ctx, T, N):
    """Topology::triangle and tetrahedron(composition): the composition that vertices induce gives the simplex with these vertices"""
    names = {2: "triangle", 3: "tetrahedron"}
    J = Job(ctx, T, f"Topology::{names[N]}(composition)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        v = J.v = [z3.Int(f"v{i}") for i in range(N + 1)]
        T.nonnull(st, *v)
        st.pc.append(z3.Distinct(*v))
        c = [z3.Int(f"c{i}") for i in range(N + 1)]
        S = Snap(T, st)
        T.nonnull(st, *c, *[S.FP(x) for x in c])
        g = Geo(S, N == 3)
        st.pc += [S.L("s", N - 1, x) for x in c] + [g.sgn(x) for x in c] + [g.can(N - 1, S.FP(x)) for x in c]
        st.pc.append(z3.Distinct(*[S.FP(x) for x in c]))
        for x, p in zip(c, ((0, 1), (1, 2), (2, 0)) if N == 2 else ((0, 1, 2), (1, 3, 2), (3, 1, 0), (3, 0, 2))):
            w = [v[i] for i in p]
            st.pc.append(And(*[a == b for a, b in zip(g.vert(1, x), w)]) if N == 2 else even(g.vert(2, x), w))
        h = T.handles(ex, st, c, "composition")
        J.out = T.out(ex, st)
        return f"t_of_{names[N]}", [t, Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        s = T.outv(ex, st, J.out)
        g = Geo(S, N == 3)
        yield "the footprint is in canonical form", g.can(N, S.FP(s))
        yield "the vertices of the simplex are those that induce the composition, in an order of the same parity", even(g.vert(N, s), J.v)
        yield "nothing else is registered", z3.BoolVal(all(S.maps[k] == J.S0.maps[k] for k in S.maps))
    J.run(setup, post, contracts={rf"^mito::topology::OrientedSimplexFactory<{N}>::orientedSimplex\(std::array<mito::utilities::SharedPointer<mito::topology::OrientedSimplex<": c_simplex(J, N)})
