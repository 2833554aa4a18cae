"""Contracts of Repository and SegmentedVector: what emplace, erase and the destructors do to the pool
(addresses, count: U02) and to the life of the resources (U04)."""
import z3
from engine.execu import Ptr, Unsupported
from .pool_spec import AState, Iterators, I_, q, iv
from . import pool_spec as PS

SLOT = z3.Function("slot", I_, I_, I_)
SIDX = PS.AI("Sidx")


class Container:
    """the container invariant of one type: the pool's invariant, plus, for every slot (k, i) of the segments,
    Repository:       alive = 1 below the end unless the slot is available, 0 elsewhere; available slots have no references
    SegmentedVector:  alive = 1 below the end, 0 elsewhere; a slot below the end is valid iff it is not available"""

    def __init__(self, P, nm):
        self.P, self.nm = P, nm
        self.L = P.layout(nm)
        self.repo = nm[0] == "r"
        self.kind = "Repository" if self.repo else "SegmentedVector"
        self.es, self.poff = self.L[("_layout", 9)], self.L[("_layout", 10)]
        self.off, self.size, self.isz, self.ioff = (self.L[("_clayout", i)] for i in range(4))
        self.tag = f"{nm}: {self.kind}, resource of {self.es} bytes"

    def alive_is(self, A, alive, S, k, i, ns, m, N, avail):
        below = A.slot_lt(k, i, ns, m, N)
        a = S(k, i)
        v = z3.If(below, z3.If(z3.Select(avail, a), 0, 1) if self.repo else z3.IntVal(1), z3.IntVal(0))
        return z3.Select(alive, a + self.poff) == v

    def flag_is(self, A, heap, S, k, i, ns, m, N, avail):
        a = S(k, i)
        if self.repo:
            return z3.Implies(z3.And(A.slot_lt(k, i, ns, m, N), z3.Select(avail, a)), z3.Select(heap[4], a + 8) == 0)
        # a bool is 0 or 1
        return z3.Implies(A.slot_lt(k, i, ns, m, N), z3.Select(heap[1], a + 8) == z3.If(z3.Select(avail, a), 0, 1))

    def install(self, ex, st, A):
        k, i, x, y = z3.Ints("k i x y")
        seg = z3.And(k >= 0, k < A.ns, i >= 0, i < A.N)
        # names for the addresses of the slots, for the positions of segments
        st.pc.append(q([k, i], SLOT(k, i) == A.S[k] + self.es * i, SLOT(k, i)))
        st.pc.append(q([k], z3.Implies(z3.And(k >= 0, k < A.ns), SIDX[A.S[k]] == k), A.S[k]))
        args = (A.ns, A.mm, A.N, A.q[3])
        st.pc.append(q([k, i], z3.Implies(seg, z3.And(self.alive_is(A, st.ghost["alive"], SLOT, k, i, *args),
                                                      self.flag_is(A, st.heap, SLOT, k, i, *args))), SLOT(k, i)))
        # an available location is the slot its ghost coordinates say
        st.pc.append(q([x], z3.Implies(z3.Select(A.q[3], x), x == SLOT(A.KK[x], A.II[x])), z3.Select(A.q[3], x)))
        st.ghost["res0"] = st.ghost["alive"]
        A.k0, A.i0 = z3.Ints("k0 i0")
        # the goals are about an arbitrary slot (k0, i0): name its address
        st.pc.append(SLOT(A.k0, A.i0) == A.S[A.k0] + self.es * A.i0)

    # -- what the state at the end says about an arbitrary slot (k0, i0)
    def life_goals(self, A, st, c):
        """c: components with m, S of the end state"""
        k, i = A.k0, A.i0
        S2 = c["S"]
        addr = lambda k, i: S2[k] + self.es * i
        seg = z3.And(k >= 0, k < c["ns"], i >= 0, i < c["N"])
        args = (c["ns"], c["m"], c["N"], c["q"][3])
        what = "alive iff it is below the end and not available" if self.repo else "alive iff it is below the end"
        yield "a resource is " + what, z3.Implies(seg, self.alive_is(A, st.ghost["alive"], addr, k, i, *args))
        yield self.flag_goal(A, st, c)

    def flag_goal(self, A, st, c):
        k, i = A.k0, A.i0
        S2 = c["S"]
        addr = lambda k, i: S2[k] + self.es * i
        seg = z3.And(k >= 0, k < c["ns"], i >= 0, i < c["N"])
        args = (c["ns"], c["m"], c["N"], c["q"][3])
        return "available elements are not valid" if self.repo else "elements are valid iff they are not available", z3.Implies(
            seg, self.flag_is(A, st.heap, addr, k, i, *args))


def flag_of(v):
    return v if z3.is_bool(v) else iv(v) != 0


def run(ctx, P, nm, prop):
    """the obligations of one property: U01 (counts), U02 (addresses and sizes), U03 (validity), U04 (life)"""
    C = Container(P, nm)
    life = prop == "U04"
    place = prop == "U02"
    off = C.off

    def method(suffix, title, args, post, pre=None, extra=None):
        def ext(ex, st, A):
            if pre != "raw":
                C.install(ex, st, A)
            if extra:
                extra(ex, st, A)
        PS.method(ctx, P, nm, nm + suffix, f"{C.kind}::{title} [{C.tag}]", args, pre, post, ext, off=off, size=C.size)

    # constructor
    def ctor(ex, st, A):
        n = z3.Int("n")
        st.pc.append(n >= 1)
        return [Ptr(A.obj, 0), n]

    def ctor_post(ex, st, A):
        c = A.read(ex, st, A.obj, off)
        c.update(m=A.mm, S=A.S, KK=A.KK, II=A.II)
        yield "a new container is empty", z3.And(c["ns"] == 0, c["ne"] == 0, c["N"] == z3.Int("n"))
        if place:
            yield from PS.inv_goals(A, st, c)
        if life:
            yield "no resource is constructed or destroyed", z3.BoolVal(st.ghost["alive"].eq(A.alive0))
    method("_cctor", f"{C.kind}(int)", ctor, ctor_post, pre="raw")

    if place:
        method("_ccapacity", "capacity()", None,
               lambda ex, st, A: [("capacity is segments times segment size", iv(st.retval) == A.ns * A.N)] + PS.unchanged(ex, st, A))
        method("_csize", "size()", None,
               lambda ex, st, A: [("size is the number of elements", iv(st.retval) == A.ne)] + PS.unchanged(ex, st, A))

    # emplace
    def emp(ex, st, A):
        if not C.repo:
            return [Ptr(A.obj, 0)]
        o = ex.new_obj(st, "handle", 8, "param")
        A.h = o
        return [Ptr(A.obj, 0), Ptr(o, 0)]

    def emp_post(ex, st, A):
        c = A.read(ex, st)
        if C.repo:
            loc = iv(ex.to_int(st.mem[A.h.id][0][1]))
        else:
            loc = iv(ex.to_int(st.retval))
        arr, h, t, s, qt = A.q
        reuse = h < t
        new = st.ghost.get("new", ())
        S2 = z3.Store(A.S, A.ns, new[0][0]) if new else A.S
        m2 = z3.If(reuse, A.mm, z3.If(z3.And(A.ns > 0, A.mm < A.N), A.mm + 1, 1))
        c.update(m=m2, S=S2, KK=A.KK, II=A.II)
        k, i, b = A.k0, A.i0, z3.Int("b")
        if place:
            yield "an erased location is reused before the pool grows", z3.Implies(reuse, z3.And(loc == z3.Select(arr, h), c["ns"] == A.ns, c["end"] == A.end))
            yield "otherwise the location is the next slot of the last segment", z3.Implies(z3.Not(reuse), loc == S2[c["ns"] - 1] + C.es * (m2 - 1))
            yield "the pool grows by one segment, only if it is full", z3.If(
                z3.And(z3.Not(reuse), A.end == A.ea), c["ns"] == A.ns + 1, c["ns"] == A.ns)
            yield "size grows by one", c["ne"] == A.ne + 1
            live = z3.And(A.is_slot(k, i), z3.Not(z3.Select(s, A.addr(k, i))))
            yield "the new element overlaps no element", z3.Implies(live, z3.Or(loc >= A.addr(k, i) + C.es, loc + C.es <= A.addr(k, i)))
            yield "the new element is not available any more", z3.Not(z3.Select(c["q"][3], loc))
            a = A.addr(k, i) + b
            yield "elements do not move and keep their contents", z3.Implies(z3.And(live, b >= 0, b < C.es), z3.And(
                S2[k] == A.S[k], *[z3.Select(st.heap[w], a) == z3.Select(A.heap0[w], a) for w in (8, 4, 1)]))
            yield from PS.inv_goals(A, st, c)
        x = z3.Int("x")
        if prop in ("U01", "U03"):
            if C.repo:
                yield "the new resource has one reference", z3.Select(st.heap[4], loc + 8) == 1
                yield "no other count changes", z3.Implies(z3.Or(x < loc, x >= loc + C.es), z3.Select(st.heap[4], x) == z3.Select(A.heap0[4], x))
            else:
                yield "the new resource is valid", z3.Select(st.heap[1], loc + 8) == 1
                yield "no other flag changes", z3.Implies(z3.Or(x < loc, x >= loc + C.es), z3.Select(st.heap[1], x) == z3.Select(A.heap0[1], x))
        if prop == "U03":
            yield C.flag_goal(A, st, c)
        if life:
            yield "the new resource is alive", z3.Select(st.ghost["alive"], loc + C.poff) == 1
            if C.repo:
                yield "the new resource has one reference", z3.Select(st.heap[4], loc + 8) == 1
            else:
                yield "the new resource is valid", z3.Select(st.heap[1], loc + 8) == 1
            x = z3.Int("x")
            yield "no other resource is constructed or destroyed", z3.Implies(x != loc + C.poff, z3.Select(st.ghost["alive"], x) == z3.Select(A.alive0, x))
            yield from C.life_goals(A, st, c)
            yield "no memory is released", z3.BoolVal(st.ghost["freed"].eq(A.freed0))
    method("_emplace", "emplace()", emp, emp_post, extra=lambda ex, st, A: setattr(A, "freed0", st.ghost["freed"]))

    # erase
    cases = ("live",) + (("null",) if C.repo else ("erased",))
    for case in cases:
        def era(ex, st, A, case=case):
            k, i = z3.Ints("ek ei")
            A.ek, A.ei = k, i
            A.loc = A.addr(k, i)
            av = z3.Select(A.q[3], A.loc)
            st.pc += [A.is_slot(k, i), SLOT(k, i) == A.loc, av if case == "erased" else z3.Not(av)]
            if C.repo:
                o = ex.new_obj(st, "handle", 8, "param")
                A.h = o
                st.cells(o, True)[0] = (8, z3.IntVal(0) if case == "null" else A.loc)
                # documented: only if no one else is using it
                st.pc.append(z3.Select(st.heap[4], A.loc + 8) == 1)
                return [Ptr(A.obj, 0), Ptr(o, 0)]
            return [Ptr(A.obj, 0), A.loc]

        def era_post(ex, st, A, case=case):
            ok = flag_of(st.retval)
            if case != "live":
                yield "returns false", z3.Not(ok)
                if place:
                    yield from PS.unchanged(ex, st, A)
                elif life:
                    yield "no resource is constructed or destroyed", z3.BoolVal(st.ghost["alive"].eq(A.alive0))
                else:
                    yield "no count or flag changes", z3.BoolVal(all(st.heap[w].eq(A.heap0[w]) for w in st.heap))
                return
            c = A.read(ex, st)
            c.update(m=A.mm, S=A.S, KK=z3.Store(A.KK, A.loc, A.ek), II=z3.Store(A.II, A.loc, A.ei))
            x = z3.Int("x")
            if prop in ("U01", "U03"):
                w, v = (4, "count") if C.repo else (1, "flag")
                yield "the erased resource is not valid", z3.Select(st.heap[w], A.loc + 8) == 0
                yield f"no other {v} changes", z3.Implies(x != A.loc + 8, z3.Select(st.heap[w], x) == z3.Select(A.heap0[w], x))
                if C.repo:
                    yield "the handle is null", iv(ex.to_int(st.mem[A.h.id][0][1])) == 0
                if prop == "U03":
                    yield C.flag_goal(A, st, c)
            elif place:
                yield "returns true", ok
                yield "size decreases by one", c["ne"] == A.ne - 1
                yield "the location becomes available", z3.Select(c["q"][3], A.loc)
                yield "no other location becomes available", z3.Implies(x != A.loc, z3.Select(c["q"][3], x) == z3.Select(A.q[3], x))
                yield "capacity does not change", c["ns"] == A.ns
                k, i, b = A.k0, A.i0, z3.Int("b")
                a = A.addr(k, i) + b
                yield "other elements keep their contents", z3.Implies(
                    z3.And(A.is_slot(k, i), z3.Or(k != A.ek, i != A.ei), b >= 0, b < C.es),
                    z3.And(*[z3.Select(st.heap[w], a) == z3.Select(A.heap0[w], a) for w in (8, 4, 1)]))
                yield from PS.inv_goals(A, st, c)
            else:
                if C.repo:
                    h = st.mem[A.h.id][0][1]
                    yield "the handle is null", iv(ex.to_int(h)) == 0
                    yield "the erased resource is destroyed", z3.Select(st.ghost["alive"], A.loc + C.poff) == 0
                yield "no other resource is constructed or destroyed", z3.Implies(x != A.loc + C.poff, z3.Select(st.ghost["alive"], x) == z3.Select(A.alive0, x))
                yield from C.life_goals(A, st, c)
        name = {"live": "", "null": " [null handle]", "erased": " [element already erased]"}[case]
        method("_cerase", f"erase(){name}", era, era_post)

    if life:
        life_end(ctx, P, nm, C, method)


def life_end(ctx, P, nm, C, method):
    """destructors and moves"""
    # move
    if not C.repo:
        def mov(ex, st, A):
            o = ex.new_obj(st, "dest", C.size, "param")
            ex.objbyid[o.id] = o
            A.dest = o
            return [Ptr(o, 0), Ptr(A.obj, 0)]

        def mov_post(ex, st, A):
            c = A.read(ex, st, A.dest, C.off)
            yield "the destination owns everything the source did", z3.And(
                c["N"] == A.N, c["ns"] == A.ns, c["ne"] == A.ne, c["begin"] == A.begin, c["end"] == A.end, c["ea"] == A.ea)
            yield "the destination has the available locations and the table of segments", z3.BoolVal(
                all(x.eq(y) for x, y in zip(c["q"], A.q)) and all(x.eq(y) for x, y in zip(c["map"], A.map)))
            d = A.read(ex, st)
            yield "the source owns nothing", z3.And(d["ns"] == 0, d["ne"] == 0, d["begin"] == 0, d["end"] == 0, d["ea"] == 0)
            yield "the source has no available locations", d["q"][1] == d["q"][2]
            yield "no resource is constructed or destroyed", z3.BoolVal(st.ghost["alive"].eq(A.alive0))
        method("_cmove", "SegmentedVector(SegmentedVector &&)", mov, mov_post)

    # destructor
    def ext(ex, st, A):
        A.its = Iterators(P, ex, A)
        A.freed0 = st.ghost["freed"]
        H8, al0 = st.heap[8], st.ghost["alive"]
        k, i, x = z3.Ints("k i x")
        its = A.its
        # the positions of iterators name their addresses
        put = its.put

        def put2(st, obj, off, k, i):
            put(st, obj, off, k, i)
            st.pc.append(SLOT(k, i) == A.S[k] + C.es * i)
        its.put = put2

        def cands(cut, ev, hv, syms):
            out = []
            s0, t0 = A.q[3], A.q[2]
            keys = list(syms)
            for key in keys:
                if key[0] == "ghost" and key[1][0] == "queue":
                    arr, h, t, s, qt = ev[key]
                    out.append(("the elements of the copied queue do not change", lambda w, key=key, arr=arr, t=t, qt=qt: z3.And(w[key][0] == arr, w[key][2] == t, w[key][4] == qt)))
                    out.append(("the queue is drained in order", lambda w, key=key, h=h, t=t: z3.And(w[key][1] >= h, w[key][1] <= t)))
                    out.append(("the queue has the elements not drained yet", lambda w, key=key, s=s, qt=qt: q(
                        [x], z3.Select(w[key][3], x) == z3.And(z3.Select(s, x), qt[x] >= w[key][1]), z3.Select(w[key][3], x))))
                    for ks in keys:
                        if ks[0] == "ghost" and ks[1][0] == "uset":
                            out.append(("the set has the elements drained so far", lambda w, key=key, ks=ks, s=s, qt=qt: q(
                                [x], z3.Select(w[ks], x) == z3.And(z3.Select(s, x), qt[x] < w[key][1]), z3.Select(w[ks], x))))
                if key == ("heap", 8):
                    out.append(("links between segments are kept", lambda w: q(
                        [k], z3.Implies(z3.And(k >= 0, k < A.ns - 1), z3.Select(w[("heap", 8)], A.S[k] + A.N * C.es) == A.S[k + 1]), A.S[k])))
                if key == ("ghost", "alive"):
                    for ki in keys:
                        if ki[0] == "ghost" and ki[1][0] == "it":
                            out.append(("resources before the iterator are destroyed, the others are as they were", lambda w, ki=ki: q(
                                [k, i], z3.Implies(z3.And(k >= 0, k < A.ns, i >= 0, i < A.N), z3.Select(w[("ghost", "alive")], SLOT(k, i) + C.poff) ==
                                                   z3.If(z3.And(A.is_slot(k, i), its.before((k, i), w[ki])), 0, z3.Select(al0, SLOT(k, i) + C.poff))), SLOT(k, i))))
                if key == ("ghost", "freed"):
                    for kp in keys:
                        if kp[0] == "mem" and kp[3] == 8 or kp[0] == "phi":
                            p = lambda w, kp=kp: iv(ex.to_int(w[kp]) if isinstance(w[kp], Ptr) else w[kp])
                            out.append(("the segment to release is one of the pool", lambda w, p=p: z3.And(
                                SIDX[p(w)] >= 0, SIDX[p(w)] < A.ns, p(w) == A.S[SIDX[p(w)]])))
                            out.append(("segments before it have been released, the others not", lambda w, p=p: q(
                                [k], z3.Implies(z3.And(k >= 0, k < A.ns), z3.Select(w[("ghost", "freed")], A.S[k]) == (k < SIDX[p(w)])), A.S[k])))
            return out

        def measures(cut, ev, hv, syms):
            keys = list(syms)
            if any(k[0] == "ghost" and k[1][0] == "it" for k in keys):
                yield from its.measures(cut, ev, hv, syms)
                return
            qs = [k for k in keys if k[0] == "ghost" and k[1][0] == "queue"]
            if qs:
                yield "the queue gets shorter", lambda h, a: z3.And(a[qs[0]][2] - a[qs[0]][1] < h[qs[0]][2] - h[qs[0]][1], h[qs[0]][2] - h[qs[0]][1] >= 0)
                return
            if ("ghost", "freed") in keys:
                ps = [k for k in keys if k[0] == "mem" and k[3] == 8 or k[0] == "phi"]

                def m(h, a):
                    v = lambda w, k: SIDX[iv(ex.to_int(w[k]) if isinstance(w[k], Ptr) else w[k])]
                    return z3.Or(*[z3.And(v(h, k) < v(a, k), v(a, k) < A.ns) for k in ps])
                yield "the next segment is released", m
        A.candidates = [A.its.candidates(lambda st, k, i: z3.BoolVal(False)), cands]
        A.measures = [measures]

        def on_flat(st, a, size, write):
            k = z3.FreshConst(I_, "k")
            fr = st.ghost["freed"]
            if fr.eq(A.freed0):
                return
            st.obls.append(("released memory is not used", q([k], z3.Implies(
                z3.And(k >= 0, k < A.ns, z3.Select(fr, A.S[k])), z3.Or(a + size <= A.S[k], a >= A.S[k] + A.N * C.es + 8)), A.S[k])))
        ex.on_flat = on_flat

    def post(ex, st, A):
        k, i = A.k0, A.i0
        yield "every resource has been destroyed", z3.Implies(z3.And(k >= 0, k < A.ns, i >= 0, i < A.N), z3.Select(st.ghost["alive"], SLOT(k, i) + C.poff) == 0)
        yield "every segment has been released", z3.Implies(z3.And(k >= 0, k < A.ns), z3.Select(st.ghost["freed"], A.S[k]))
    method("_cdtor", f"~{C.kind}()", None, post, extra=ext)
