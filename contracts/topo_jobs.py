"""Contracts on flipping, existence queries and erasure."""
import itertools
import z3
from engine.execu import Ptr, NULL, Unsupported
from .pool_spec import iv, ir_ptr
from .topo_spec import Job, Snap, I_, sort_terms, perm_sign, topology, factory, same_maps, frame, ri_post, VALID
from .topo_make import Geo, And, Or, Not, If, Implies

TOPOLOGY = r"^mito::topology::topology\(\)"


def oriented_arg(ex, st, J, N, name="s"):
    """a live oriented simplex in a state that satisfies the invariant"""
    T = J.T
    s = z3.Int(name)
    S = Snap(T, st)
    u = S.FP(s)
    T.nonnull(st, s, u)
    st.pc += [S.L("s", N, s), S.ri_s(N, s), S.ri_u(N, u) if N else S.L("u", N, u)]
    st.pc += [S.ri_uo(N, u, z3.IntVal(o)) for o in (1, -1)]
    T.dynamic_type(st, s, N, True)
    T.dynamic_type(st, u, N, False)
    # simplices of different types are different objects (U02)
    st.pc.append(z3.Distinct(s, u))
    if N:
        for i in range(N + 1):
            st.pc.append(And(S.C(u, i) != s, S.C(u, i) != u))
            if N > 1:
                st.pc += [S.FP(S.C(u, i)) != s, S.FP(S.C(u, i)) != u]
    J.s, J.u = s, u
    J.arr = T.handles(ex, st, [s], "simplex")
    return Ptr(J.arr, 0)


def job_flip(ctx, T, N, free=False):
    J = Job(ctx, T, f"{'flip' if free else 'Topology::flip'}<{N}>(simplex)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        s = oriented_arg(ex, st, J, N)
        J.out = T.out(ex, st)
        if free:
            ex.contracts[TOPOLOGY] = lambda ex, st, d, a, I: t
        return (f"t_freeflip_{N}", [s, Ptr(J.out, 0)]) if free else (f"t_flip_{N}", [t, s, Ptr(J.out, 0)])

    def post(ex, st, S, J):
        S0 = J.S0
        r = T.outv(ex, st, J.out)
        o = S0.OR(J.s)
        was = S0.ori(N, J.u, -o)
        yield "the flipped simplex has the same footprint and the opposite orientation", And(S.L("s", N, r), S.FP(r) == J.u, S.OR(r) == -o)
        yield "the opposite simplex is returned if it exists", Implies(was != 0, r == was)
        yield "nothing changes if it exists", Implies(was != 0, same_maps(J, S))
        yield "flipping the result finds the original simplex", S.ori(N, S.FP(r), -S.OR(r)) == J.s
        yield from frame(J, S, st)
        yield from ri_post(J, S, N, st, False, True)
    J.run(setup, post)


def job_make_uo(ctx, T, N):
    J = Job(ctx, T, f"Topology::simplex<{N}>(footprint, orientation)")

    def setup(ex, st, J):
        from .topo_spec import u_arg
        t = topology(ex, st, J)
        u, o = u_arg(ex, st, J, N)
        J.out = T.out(ex, st)
        return f"t_make_uo_{N}", [t, u, o, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        s = T.outv(ex, st, J.out)
        was = J.S0.ori(N, J.u, J.o)
        st.pc += [J.S0.ri_uo(N, J.u, J.o)]
        yield "the simplex has the footprint and the orientation given", And(S.L("s", N, s), S.FP(s) == J.u, S.OR(s) == J.o)
        yield "the simplex with this footprint and orientation is returned if there is one", Implies(was != 0, s == was)
        yield from frame(J, S, st)
        yield from ri_post(J, S, N, st, False, True)
    J.run(setup, post)


def job_flipped(ctx, T, N):
    J = Job(ctx, T, f"Topology::exists_flipped<{N}>(simplex)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        s = oriented_arg(ex, st, J, N)
        return f"t_flipped_{N}", [t, s]

    def post(ex, st, S, J):
        yield "true exactly if the opposite simplex exists", (iv(st.retval) != 0) == (J.S0.ori(N, J.u, -J.S0.OR(J.s)) != 0)
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def job_exists_vertices(ctx, T):
    J = Job(ctx, T, "Topology::exists(vertices)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        v = J.v = list(z3.Ints("v0 v1"))
        T.nonnull(st, *v)
        S = Snap(T, st)
        g = Geo(S)
        st.pc += [v[0] != v[1], *[S.L("u", 0, x) for x in v]]
        k = sort_terms(v)
        u = J.u = S.comp(1, k)
        st.pc += [S.ri_key(1, k), S.ri_u(1, u), Implies(u != 0, g.can(1, u))]
        st.pc += [Implies(u != 0, S.ri_s(0, S.C(u, i))) for i in range(2)]
        st.pc += [S.ri_uo(0, x, z3.IntVal(o)) for x in v for o in (1, -1)]
        st.pc += [S.ri_uo(1, u, z3.IntVal(o)) for o in (1, -1)]
        h = T.handles(ex, st, v, "vertices")
        return "t_existsv", [t, Ptr(h, 0)]

    def post(ex, st, S, J):
        S0 = J.S0
        g = Geo(S0)
        o = If(And(*[a == b for a, b in zip(g.V(1, J.u), J.v)]), 1, -1)
        s = S0.ori(1, J.u, o)
        yield "true exactly if the segment from the first vertex to the second exists", (iv(st.retval) != 0) == And(J.u != 0, s != 0)
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def job_ends(ctx, T):
    from .topo_make import live_simplex
    for fn, nm, i in (("s_tail", "tail", 0), ("s_head", "head", 1)):
        J = Job(ctx, T, f"{nm}(segment)")

        def setup(ex, st, J, fn=fn):
            J.s = live_simplex(st, J, 1)
            h = T.handles(ex, st, [J.s], "segment")
            J.out = T.out(ex, st)
            return fn, [Ptr(h, 0), Ptr(J.out, 0)]

        def post(ex, st, S, J, i=i, nm=nm):
            yield f"the {nm} is the {'second' if i else 'first'} vertex of the segment", T.outv(ex, st, J.out) == Geo(S).vert(1, J.s)[i]
        J.run(setup, post)
    J = Job(ctx, T, "headTailConnected(segment, segment)")

    def setup(ex, st, J):
        J.a, J.b = live_simplex(st, J, 1, "a"), live_simplex(st, J, 1, "b")
        h = T.handles(ex, st, [J.a, J.b], "segments")
        return "s_connected", [Ptr(h, 0), Ptr(h, 8)]

    def post(ex, st, S, J):
        g = Geo(S)
        yield "true exactly if the head of the first is the tail of the second", (iv(st.retval) != 0) == (g.vert(1, J.a)[1] == g.vert(1, J.b)[0])
    J.run(setup, post)


def job_vertex(ctx, T):
    for fn, who in (("sf_vertex", "SimplexFactory<0>::simplex()"), ("of_vertex", "OrientedSimplexFactory<0>::vertex()"), ("t_vertex", "Topology::vertex()")):
        J = Job(ctx, T, who)

        def setup(ex, st, J, fn=fn):
            t = topology(ex, st, J) if fn == "t_vertex" else factory(ex, st, J, 0, fn != "sf_vertex")
            J.out = T.out(ex, st)
            return fn, [t, Ptr(J.out, 0)]

        def post(ex, st, S, J):
            v = T.outv(ex, st, J.out)
            yield "the vertex is new", And(v > 0, S.L("u", 0, v), *[Not(J.S0.L(k, N, v)) for k in "us" for N in range(4)])
            yield from frame(J, S, st)
        J.run(setup, post)


# ------------------------------------------------------------------ erasure
def counts(ex, st, J, N, handles=0):
    """reference counts: at least the handles that the invariant knows of (U01)"""
    S = Snap(J.T, st)
    s, u = J.s, J.u
    other = S.ori(N, u, -S.OR(s))
    # a footprint is used by every oriented simplex that rides on it
    st.pc += [S.REF(s) >= 1, S.REF(u) >= 1 + If(other != 0, 1, 0)]
    if N:
        for i in range(N + 1):
            st.pc.append(S.REF(S.C(u, i)) >= 1)


def used(S, N, s, u):
    """x is another simplex: what it uses has a reference besides those of s and the handle that is passed"""
    x = z3.Int("x_other")
    facts = []
    # oriented simplex x on the footprint u: the footprint has a reference for it
    facts.append(Implies(And(S.L("s", N, x), x != s, S.FP(x) == u), S.REF(u) >= 2))
    return x, facts


def job_of_erase(ctx, T, N):
    J = Job(ctx, T, f"OrientedSimplexFactory<{N}>::erase(simplex)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N)
        s = oriented_arg(ex, st, J, N)
        counts(ex, st, J, N)
        return f"of_erase_{N}", [f, s]

    def post(ex, st, S, J):
        S0 = J.S0
        s, u = J.s, J.u
        one = S0.REF(s) == 1
        gone = And(one, S0.REF(u) == 1)
        x = z3.Int("x_any")
        o = z3.Int("o_any")
        w = z3.Int("u_any")
        same = And(*[z3.Select(S.heap[k], x) == z3.Select(S0.f(*k), x) for k in S.heap if k[0] == T.o_ref])
        yield "nothing changes if the simplex is still in use", Implies(Not(one), And(same, *[S.L(k, n, x) == S0.L(k, n, x) for k in "us" for n in range(4)], S.ori(N, w, o) == S0.ori(N, w, o)))
        yield "the simplex is erased if nothing else uses it", Implies(one, And(Not(S.L("s", N, s)), S.ori(N, u, S0.OR(s)) == 0))
        yield "no other oriented simplex is erased", Implies(x != s, S.L("s", N, x) == S0.L("s", N, x))
        yield "no other orientation is forgotten", Implies(Or(w != u, o != S0.OR(s)), S.ori(N, w, o) == S0.ori(N, w, o))
        yield "the footprint is erased if no oriented simplex uses it any more", Implies(gone, Not(S.L("u", N, u)))
        yield "the footprint is kept if something else uses it", Implies(Not(gone), S.L("u", N, u) == S0.L("u", N, u))
        yield "no other footprint is erased", Implies(x != u, S.L("u", N, x) == S0.L("u", N, x))
        yield "simplices of other orders are kept", And(*[S.live[k].eq(S0.live[k]) if False else S.L(k[0], k[1], x) == S0.L(k[0], k[1], x) for k in S.live if k[1] != N])
        if N:
            k = [z3.Int(f"k{i}_any") for i in range(N + 1)]
            kk = S0.key(N, u)
            yield "the composition is forgotten with the footprint", Implies(gone, S.comp(N, kk) == 0)
            yield "no other composition is forgotten", Implies(Or(Not(gone), *[a != b for a, b in zip(k, kk)]), S.comp(N, k) == S0.comp(N, k))
        for key, a in S.heap.items():
            if key[0] not in (0, T.o_ref):
                yield "no simplex is changed", Implies(And(x != s, x != u), z3.Select(a, x) == z3.Select(S0.f(*key), x))
        # reference counts
        uses = [S0.C(u, i) for i in range(N + 1)] if N else []
        d = z3.IntVal(0)
        for c in uses:
            d = d + If(c == x, 1, 0)
        yield "the references of the others are kept, but for those the erased footprint had to its facets", Implies(
            And(x != s, x != u), S.REF(x) == S0.REF(x) - If(gone, d, 0))
        yield "the footprint loses the reference of the erased simplex", Implies(And(one, Not(gone)), S.REF(u) == S0.REF(u) - 1)
        yield "the handle is reset with the simplex", If(one, T.outv(ex, st, J.arr) == 0, T.outv(ex, st, J.arr) == s)
        # invariants
        y = z3.Int("s_any")
        st.pc += [S0.ri_uo(N, w, o), S0.ri_s(N, y), S0.ri_u(N, w) if N else z3.BoolVal(True),
                  Implies(And(S0.L("s", N, y), y != s, S0.FP(y) == u), S0.REF(u) >= 2)]
        yield "invariant: the orientation map takes (footprint, orientation) to the simplex that has them", S.ri_uo(N, w, o)
        yield "invariant: every oriented simplex is registered under its footprint and orientation", S.ri_s(N, y)
        if N:
            st.pc += [S0.ri_key(N, k), S0.ri_u(N, S0.comp(N, k))]
            yield "invariant: the composition map takes a key to the simplex with that key", S.ri_key(N, k)
            yield "invariant: every simplex is registered under its key", S.ri_u(N, w)
            # simplices of the order above keep their facets
            c = z3.Int("facet_any")
            st.pc += [Implies(And(S0.L("s", N, c), c == s, z3.Bool("used_by_another")), S0.REF(s) >= 2)]
            yield "a facet of another simplex is kept", Implies(And(S0.L("s", N, c), Implies(c == s, z3.Bool("used_by_another"))), S.L("s", N, c))
    J.run(setup, post, refs=True)


def job_t_erase(ctx, T, N):
    """Topology::erase: the composition is copied, the simplex is erased by its factory, then every facet once"""
    J = Job(ctx, T, f"Topology::erase<{N}>(simplex)")

    def setup(ex, st, J):
        t = topology(ex, st, J)
        s = oriented_arg(ex, st, J, N)
        counts(ex, st, J, N)
        S = Snap(T, st)
        J.c = [S.C(J.u, i) for i in range(N + 1)] if N else []
        T.nonnull(st, *J.c)
        st.ghost["trace"] = ()

        def erase(order):
            def h(ex, st, d, a, I):
                p = a[1]
                x = T.num(ex, ex.load(st, p, ir_ptr()))
                S = Snap(T, st)
                first = order == N and "Factory" in d
                one = ex.decide(st, S.REF(x) == 1, None) if first else False
                gone = ex.decide(st, S.REF(J.u) == 1, None) if one else False
                st.ghost["trace"] = st.ghost["trace"] + ((order, x, S.REF(x), p),)
                if first:
                    # contract of the factory (verified: job_of_erase); if erased, the handle is reset and the footprint
                    # (if it goes) drops its facets
                    if one:
                        k = (T.o_ref, 4)
                        live = dict(st.ghost["live"])
                        live[("s", N)] = z3.Store(live[("s", N)], x, z3.BoolVal(False))
                        if gone:
                            live[("u", N)] = z3.Store(live[("u", N)], J.u, z3.BoolVal(False))
                            for c in J.c:
                                T.acquire(ex, st, c, -1)
                            # the freed objects have no contents any more
                            for off, n in ((T.o_fp, 8), (T.o_or, 4)):
                                st.heap[(off, n)] = z3.Store(ex.field(st, off, n), x, z3.FreshConst(I_, "dead"))
                            for i in range(N + 1):
                                st.heap[(T.o_c + 8 * i, 8)] = z3.Store(ex.field(st, T.o_c + 8 * i, 8), J.u, z3.FreshConst(I_, "dead"))
                        st.ghost["live"] = live
                        ex.store(st, p, NULL, ir_ptr())
                        st.ghost["case"] = (True, gone)
                    else:
                        st.ghost["case"] = (False, False)
                return None
            return h
        ex.contracts[rf"^mito::topology::OrientedSimplexFactory<{N}>::erase\("] = erase(N)
        if N:
            ex.contracts[rf"mito::topology::Topology::_erase<{N - 1}>\("] = erase(N - 1)
        return f"t_erase_{N}", [t, s]

    def post(ex, st, S, J):
        tr = st.ghost["trace"]
        S0 = J.S0
        yield "the simplex is erased by its factory, first and once", And(z3.BoolVal(bool(tr) and tr[0][0] == N and sum(1 for t in tr if t[0] == N) == 1), *([tr[0][1] == J.s, tr[0][2] == S0.REF(J.s)] if tr else []))
        if N:
            got = [t for t in tr if t[0] == N - 1]
            ok = len(got) == N + 1
            yield "every facet is erased, each once", z3.BoolVal(False) if not ok else And(*[Or(*[t[1] == c for t in got]) for c in J.c])
            one, gone = st.ghost.get("case", (False, False))
            if ok:
                yield "a facet has no references but those of other users and the copy of the composition", And(*[t[2] == S0.REF(t[1]) + 1 - (1 if gone else 0) for t in got])
            yield "the references are kept otherwise", Implies(And(*[z3.Int("x_any") != z for z in (J.s, J.u, *J.c)]), S.REF(z3.Int("x_any")) == S0.REF(z3.Int("x_any")))
            yield "the handles to the facets are given back", And(*[S.REF(c) == S0.REF(c) - (1 if gone else 0) for c in J.c])

    J.run(setup, post, refs=True)
