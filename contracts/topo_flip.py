"""flip_diagonal: the diagonal of two adjacent triangles.

Precondition: two triangles with the vertices (a, b, c) and (b, a, d), up to even permutations: they traverse the common
edge in opposite directions.  The two triangles returned have the vertices (c, d, b) and (d, c, a)."""
import itertools
import z3
from engine.execu import Ptr, NULL, Unsupported
from .pool_spec import iv, ir_ptr
from .topo_spec import Job, Snap, I_, sort_terms, topology, same_maps
from .topo_make import Geo, Forms, even, same_set, live_simplex, name_tree, swapif, And, Or, Not, If, Implies
from .topo_jobs import TOPOLOGY

FORMS = [(r, o) for r in range(3) for o in (1, -1)]


class Pair:
    """the two triangles, in normal form"""

    def __init__(self, ctx, T, J, ex, st, check=False):
        self.T = T
        self.t = [live_simplex(st, J, 2, f"t{i}") for i in range(2)]
        self.w = w = z3.Ints("a b c d")
        self.W = [[w[i] for i in k] for k in ((0, 1, 2), (1, 0, 3))]
        T.nonnull(st, *w)
        self.S = S = Snap(T, st)
        g = Geo(S)
        self.fm = fm = Forms(T, J.pv, ctx, J.title, st, True)
        for x, y in ((0, 1), (1, 2), (2, 0), (0, 3), (3, 1)):
            fm.edge(w[x], w[y])
        self.G = [G for G, o, x in fm.E.values()]
        st.pc += [z3.Distinct(*w)]
        self.light = [x > 0 for x in w] + [z3.Distinct(*w), z3.Distinct(*self.G)] + [G > 0 for G in self.G] + \
                     [Or(o == 1, o == -1) for G, o, x in fm.E.values()]
        first, second = z3.Function("first", I_, I_), z3.Function("second", I_, I_)
        self.es = es = [S.C(S.FP(t), i) for t in self.t for i in range(3)]
        full = [even(g.vert(2, t), y) for t, y in zip(self.t, self.W)]
        full += [g.reg1(S.FP(e)) for e in es] + [And(S.FP(S.C(S.FP(e), 0)) == first(S.FP(e)), S.FP(S.C(S.FP(e), 1)) == second(S.FP(e))) for e in es]
        st.pc += full
        self.defs = []
        for k, (G, o, x) in fm.E.items():
            y = [z for z in w if z.get_id() in k and z is not x][0]
            self.defs += [G == g.SEG(x, y), o == If(first(G) == x, 1, -1)]
        if check:
            for t, y in zip(self.t, self.W):
                fm.check(S, t, y, self.defs)
                # the ends of the facets
                for r, o in FORMS:
                    s = st.fork()
                    s.pc += [S.at(off, n, x) == v for (off, n, x), v in fm.equations(S, t, y, r, o)] + self.defs
                    s.pc += [even(g.vert(2, t), y)]
                    v = self.order(y, r, o)
                    # (the rotation is that of the equations: the footprints of the facets tell it)
                    ends = [g.vert(1, S.C(S.FP(t), i)) for i in range(3)]
                    d = [self.distinct_edges()]
                    s.pc += d
                    ok = J.pv.valid(s, And(*[And(ends[i][0] == v[i], ends[i][1] == v[(i + 1) % 3]) for i in range(3)]))
                    (ctx.discharged if ok else ctx.failed)(f"{J.title}: ends of the facets in normal form {r} {o}", "z3" if ok else str(J.pv.last), where=J.title)

    def distinct_edges(self):
        return z3.Distinct(*self.G)

    def order(self, y, r, o):
        v = (y + y)[r:r + 3]
        return [v[1], v[0], v[2]] if o == -1 else v

    def apply(self, st, cs):
        st.pc = list(self.light)
        self.T.apart(st, *self.w)
        self.T.apart(st, *self.G)
        self.T.apart(st, *self.es)
        for e in self.es:
            st.pc.append(e > 0)
        st.ghost["ends"] = {}
        for t, y, (r, o) in zip(self.t, self.W, cs):
            self.fm.apply(st, self.S, t, y, r, o)
            v = self.order(y, r, o)
            for i in range(3):
                self.ends(st, self.S.C(self.S.FP(t), i), v[i], v[(i + 1) % 3])

    @staticmethod
    def ends(st, e, a, b):
        d = dict(st.ghost.get("ends", {}))
        d[z3.simplify(e).get_id()] = (a, b, e)
        st.ghost["ends"] = d


def c_end(i):
    """head and tail of a segment (verified: job_ends)"""
    def h(ex, st, d, a, I):
        T = ex.topo
        p = a[1] if len(a) == 2 else None
        if p is None or I.ty.kind != "void":
            raise Unsupported("result of head or tail")
        s = z3.simplify(T.num(ex, ex.load(st, p, ir_ptr())))
        v = st.ghost.get("ends", {}).get(s.get_id())
        if v is None:
            raise Unsupported("ends of this segment")
        ex.store(st, a[0], v[i], ir_ptr())
        return None
    return h


ENDS = {r"^mito::topology::tail\(": c_end(0), r"^mito::topology::head\(": c_end(1)}


def parts(cases, part):
    return cases if part is None else cases[part[0]::part[1]] if isinstance(part, tuple) else ()


def job_shared(ctx, T):
    J = Job(ctx, T, "FlipDiagonal::_find_shared_simplex")

    def setup(ex, st, J):
        P = J.P = Pair(ctx, T, J, ex, st, True)
        h = T.handles(ex, st, P.t, "triangles")
        J.cases = [lambda s, cs=cs: P.apply(s, cs) for cs in itertools.product(FORMS, FORMS)]
        return "fd_shared", [Ptr(h, 0), Ptr(h, 8)]

    def post(ex, st, S, J):
        w = J.P.w
        v = T.num(ex, ex.load(st, st.retval, ir_ptr()))
        yield "the common edge is found", v == J.P.fm.edge(w[0], w[1])[0]
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def job_collect(ctx, T, N):
    """Simplex<N>::vertices(set): inserts the vertices of the simplex into any set"""
    J = Job(ctx, T, f"Simplex<{N}>::vertices(set)")

    def setup(ex, st, J):
        u = J.u = z3.Int("u")
        T.nonnull(st, u)
        name_tree(st, J, N, u, True)
        S = Snap(T, st)
        st.pc += [S.L("u", N, u), Geo(S).can(N, u)]
        h = T.handles(ex, st, [u], "simplex")
        J.set = T.out(ex, st, 48, "set")
        st.ghost[("sset", J.set.id, 0)] = ()
        J.rest = z3.Function("member", I_, z3.BoolSort())
        st.ghost[("rest", J.set.id, 0)] = J.rest
        return f"us_collect_{N}", [Ptr(h, 0), Ptr(J.set, 0)]

    def post(ex, st, S, J):
        el = st.ghost[("sset", J.set.id, 0)]
        V = Geo(S).V(N, J.u)
        x = z3.Int("x_any")
        yield "the set has its elements and the vertices of the simplex", Or(J.rest(x), *[x == e for e in el]) == Or(J.rest(x), *[x == v for v in V])
        yield "no element twice", And(*[Not(J.rest(e)) for e in el], z3.Distinct(*el) if len(el) > 1 else z3.BoolVal(True))
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def c_collect(P, N):
    def h(ex, st, d, a, I):
        T = ex.topo
        u = z3.simplify(T.num(ex, a[0]))
        tab = {P.S.FP(P.t[0]).get_id(): P.W[0], P.S.FP(P.t[1]).get_id(): P.W[1], P.fm.edge(P.w[0], P.w[1])[0].get_id(): P.w[:2]}
        v = tab.get(u.get_id())
        if v is None:
            raise Unsupported("vertices of this simplex")
        g = ("sset", a[1].obj.id, a[1].off)
        el = st.ghost[g]
        if ("rest", a[1].obj.id, a[1].off) in st.ghost:
            raise Unsupported("vertices into this set")
        for x in v:
            if not any(y.eq(x) for y in el):
                el += (x,)
        st.ghost[g] = el
        return None
    return h


def job_opposite(ctx, T):
    J = Job(ctx, T, "FlipDiagonal::_opposite_vertices")

    def setup(ex, st, J):
        P = J.P = Pair(ctx, T, J, ex, st)
        for t, y in zip(P.t, P.W):
            ok = J.pv.valid(st, same_set(Geo(P.S).V(2, P.S.FP(t)), y))
            (ctx.discharged if ok else ctx.failed)(f"{J.title}: the footprints have the vertices of the triangles", "z3" if ok else str(J.pv.last), where=J.title)
        h = T.handles(ex, st, P.t + [P.fm.edge(P.w[0], P.w[1])[0]], "triangles and edge")
        J.out = T.out(ex, st, 64)
        for N in (1, 2):
            ex.contracts[rf"^void mito::topology::Simplex<{N}>::vertices<std::set<"] = c_collect(P, N)

        def case(s):
            s.pc = list(P.light) + [x > 0 for k, x in s.ghost["nonnull"].items()]
            T.apart(s, *P.w)
        J.cases = [case]
        return "fd_opposite", [Ptr(h, 0), Ptr(h, 8), Ptr(h, 16), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        P = J.P
        yield "there are two vertices opposite the common edge", iv(st.retval) == 2
        yield "they are the other vertices of the triangles", same_set([T.outv(ex, st, J.out, i) for i in range(2)], [P.w[2], P.w[3]])
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def job_erase_sub(ctx, T, n, i):
    J = Job(ctx, T, f"FlipDiagonal::_erase_subsimplex, {n} segments, step {i}")

    def setup(ex, st, J):
        el = J.el = [z3.Int(f"e{k}") for k in range(n)]
        T.nonnull(st, *el)
        st.pc.append(z3.Distinct(*el) if n > 1 else z3.BoolVal(True))
        T.apart(st, *el)
        c = z3.Int("current")
        x = z3.Int("last")
        T.nonnull(st, c, x)
        J.tail = [z3.Int(f"tail{k}") for k in range(n)]
        J.head = z3.Int("head")
        for e, t in zip(el, J.tail):
            Pair.ends(st, e, t, z3.Int(f"head_{e}"))
        Pair.ends(st, c, z3.Int("tail_current"), J.head)
        # one of the segments, and only one, goes on
        st.pc += [z3.PbEq([(t == J.head, 1) for t in J.tail], 1)]
        J.set = T.out(ex, st, 48, "set")
        st.ghost[("sset", J.set.id, 0)] = tuple(el)
        J.comp = T.handles(ex, st, [c if k == i else z3.Int(f"comp{k}") for k in range(3)], "composition")
        J.x = T.handles(ex, st, [x], "last")
        ex.contracts.update(ENDS)
        return "fd_erase", [Ptr(J.set, 0), Ptr(J.comp, 0), Ptr(J.x, 0), i]

    def post(ex, st, S, J):
        el = st.ghost[("sset", J.set.id, 0)]
        nxt = T.outv(ex, st, J.comp, i + 1)
        yield "the segment that goes on is the next of the chain", Or(*[And(nxt == e, t == J.head) for e, t in zip(J.el, J.tail)])
        yield "it is removed from the set, and no other", And(z3.BoolVal(len(el) == n - 1), *[Or(*[x == e for e in J.el]) for x in el], *[x != nxt for x in el])
        yield "the rest of the chain is kept", And(*[T.outv(ex, st, J.comp, k) == z3.Int("current" if k == i else f"comp{k}") for k in range(3) if k != i + 1])
    J.run(setup, post)


def job_flip_diagonal(ctx, T, part=None):
    J = Job(ctx, T, "flip_diagonal")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        P = J.P = Pair(ctx, T, J, ex, st)
        h = T.handles(ex, st, P.t, "triangles")
        J.out = T.out(ex, st, 16)
        ex.lazy_sets = True
        shared = P.fm.edge(P.w[0], P.w[1])[0]
        ref = T.handles(ex, st, [shared], "shared")

        def c_shared(ex, st, d, a, I):
            if I.ty.kind != "ptr":
                raise Unsupported("_find_shared_simplex")
            return Ptr(ref, 0)

        def c_opposite(ex, st, d, a, I):
            if I.ty.kind != "void":
                raise Unsupported("_opposite_vertices")
            v = [P.w[2], P.w[3]]
            if ex.decide(st, z3.Bool("d_before_c"), None):
                v.reverse()
            o = ex.new_obj(st, "heap", 16, "heap")
            ex.objbyid[o.id] = o
            for i in range(2):
                st.cells(o, True)[8 * i] = (8, v[i])
            for k, off in ((0, 0), (8, 16), (16, 16)):
                ex.store(st, ex.padd(a[0], k), Ptr(o, off), ir_ptr())
            return None

        def c_erase(ex, st, d, a, I):
            g = ("sset", a[0].obj.id, a[0].off)
            el = st.ghost[g]
            i = a[3]
            E = st.ghost["ends"]

            def end(x, k):
                return E[z3.simplify(x).get_id()][k]
            c = T.num(ex, ex.load(st, ex.padd(a[1], 8 * i), ir_ptr()))
            hit = [x for x in el if ex.decide(st, end(x, 0) == end(c, 1), None)]
            st.obls.append(("one of the remaining segments, and only one, goes on", z3.BoolVal(len(hit) == 1)))
            if len(hit) != 1:
                st.status = "unreachable" if False else "ret"
                raise Unsupported("no segment goes on")
            st.ghost[g] = tuple(x for x in el if x is not hit[0])
            ex.store(st, ex.padd(a[1], 8 * (i + 1)), hit[0], ir_ptr())
            ex.store(st, a[2], hit[0], ir_ptr())
            return None

        def c_segment(ex, st, d, a, I):
            v = T.elems(ex, st, a[2], 2, True)
            s = z3.FreshConst(I_, "diagonal")
            T.nonnull(st, s)
            st.obls.append(("segments are requested with two distinct vertices", v[0] != v[1]))
            Pair.ends(st, s, *v)
            # (an edge between c and d is none of the edges of the triangles)
            fresh(st, s)
            ex.store(st, a[0], s, ir_ptr())
            return None

        def fresh(st, s, but=()):
            """segments with different ends are different"""
            E = st.ghost["ends"]
            me = E[s.get_id()]
            for k, (x, y, e) in E.items():
                if e is not s and not (x.eq(me[0]) and y.eq(me[1])):
                    st.pc.append(Implies(Or(x != me[0], y != me[1]), e != s))
                elif e is not s:
                    st.pc.append(e == s)

        def c_flip(ex, st, d, a, I):
            s = z3.simplify(T.num(ex, ex.load(st, a[2], ir_ptr())))
            x, y, _ = st.ghost["ends"][s.get_id()]
            r = z3.FreshConst(I_, "flipped")
            T.nonnull(st, r)
            Pair.ends(st, r, y, x)
            fresh(st, r)
            ex.store(st, a[0], r, ir_ptr())
            return None

        def c_triangle(ex, st, d, a, I):
            c = T.elems(ex, st, a[2], 3, True)
            e = []
            for x in c:
                hit = st.ghost["ends"].get(z3.simplify(x).get_id())
                if hit is None:
                    raise Unsupported("facet of the new triangle")
                e.append(hit)
            st.obls.append(("the facets of a new triangle form a closed chain of three vertices", And(*[e[i][1] == e[(i + 1) % 3][0] for i in range(3)], z3.Distinct(*[x[0] for x in e]))))
            n = z3.FreshConst(I_, "triangle")
            T.nonnull(st, n)
            st.ghost["new triangles"] = st.ghost.get("new triangles", ()) + ((n, [x[0] for x in e]),)
            ex.store(st, a[0], n, ir_ptr())
            return None
        ex.contracts.update(ENDS)
        ex.contracts.update({
            TOPOLOGY: lambda ex, st, d, a, I: t,
            r"^mito::topology::FlipDiagonal::_find_shared_simplex\(": c_shared,
            r"mito::topology::FlipDiagonal::_opposite_vertices<": c_opposite,
            r"^mito::topology::FlipDiagonal::_erase_subsimplex\(": c_erase,
            r"^mito::topology::Topology::segment\(std::array<mito::utilities::SharedPointer<mito::topology::Simplex<0>": c_segment,
            r"mito::topology::Topology::flip<1>\(": c_flip,
            r"^mito::topology::Topology::triangle\(std::array<mito::utilities::SharedPointer<mito::topology::OrientedSimplex<1>": c_triangle})
        J.cases = [lambda s, cs=cs: P.apply(s, cs) for cs in parts(list(itertools.product(FORMS, FORMS)), part)]
        return "s_flipdiag", [Ptr(h, 0), Ptr(J.out, 0)]

    def post(ex, st, S, J):
        a, b, c, d = J.P.w
        tri = st.ghost.get("new triangles", ())

        def verts(x):
            r = [z3.FreshConst(I_, "none") for _ in range(3)]
            for n, v in tri:
                r = [If(x == n, p, q) for p, q in zip(v, r)]
            return r
        n = [T.outv(ex, st, J.out, i) for i in range(2)]
        if len(tri) == 2:
            st.pc.append(Implies(Not(same_set(tri[0][1], tri[1][1])), tri[0][0] != tri[1][0]))
        v0, v1 = verts(n[0]), verts(n[1])
        yield "the new triangles share the opposite diagonal and have the outer edges of the old ones, with their orientations", Or(
            And(even(v0, [c, d, b]), even(v1, [d, c, a])), And(even(v0, [d, c, a]), even(v1, [c, d, b])))
    J.run(setup, post)
