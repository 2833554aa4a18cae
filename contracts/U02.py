"""U02: pooled storage: stable, distinct, in-bounds element addresses and exact size."""
import z3
from engine.execu import State, Ptr, Unsupported, PathLimit
from .pool_spec import Pool, AState, Prover, I_, q
from . import pool_spec as PS, containers

ALLOC = "mito::utilities::SegmentedAllocator<T>"


def run(ctx):
    P = Pool(ctx)
    PS.assume_common(ctx)
    PS.parallel(ctx, [lambda c, nm=nm, f=f: f(c, P, nm) for nm in ("r0", "r3", "c0", "c3") for f in (allocator, container)])
    PS.conclude(ctx, "U02")


def fallback(ctx):
    PS.fallback(ctx, "U02")


def same_memory(A, st, k, i, b):
    """the bytes of slot (k, i) are those of the initial state"""
    a = A.addr(k, i) + b
    return z3.And(*[z3.Select(st.heap[w], a) == z3.Select(A.heap0[w], a) for w in (8, 4, 1)])


def allocator(ctx, P, nm):
    L = P.layout(nm)
    es = L[("_layout", 9)]
    tag = f"{nm}: element of {es} bytes"

    def method(suffix, title, args=None, pre=None, post=None, extra=None):
        PS.method(ctx, P, nm, nm + suffix, f"{ALLOC}::{title} [{tag}]", args, pre, post, extra)

    # constructor
    def ctor(ex, st, A):
        n = z3.Int("n")
        st.pc.append(n >= 1)
        return [Ptr(A.obj, 0), n]

    def ctor_post(ex, st, A):
        c = A.read(ex, st)
        c.update(m=A.mm, S=A.S, KK=A.KK, II=A.II)
        yield from PS.inv_goals(A, st, c)
        yield "capacity and size are zero", z3.And(c["ns"] == 0, c["ne"] == 0, c["N"] == z3.Int("n"))
    method("_ctor", "SegmentedAllocator(int)", ctor, "raw", ctor_post)

    # observers
    method("_capacity", "capacity()", None, None,
           lambda ex, st, A: [("capacity is segments times segment size", PS.iv(st.retval) == A.ns * A.N)] + PS.unchanged(ex, st, A))
    method("_size", "size()", None, None,
           lambda ex, st, A: [("size is the number of elements", PS.iv(st.retval) == A.ne)] + PS.unchanged(ex, st, A))

    # location_for_placement
    def lfp(ex, st, A):
        o = ex.new_obj(st, "flag", 1, "param")
        A.flag = o
        return [Ptr(A.obj, 0), Ptr(o, 0)]

    def lfp_post(ex, st, A):
        c = A.read(ex, st)
        loc = PS.iv(ex.to_int(st.retval))
        fl = st.mem[A.flag.id][0][1]
        fl = PS.iv(fl) != 0 if not z3.is_bool(fl) else fl
        arr, h, t, s, qt = A.q
        reuse = h < t
        yield "a returned location is reused before the pool grows", z3.Implies(reuse, z3.And(
            loc == z3.Select(arr, h), c["ns"] == A.ns, c["end"] == A.end, c["ea"] == A.ea, fl))
        yield "the pool grows by one segment, only if it is full", z3.If(
            z3.And(z3.Not(reuse), A.end == A.ea), c["ns"] == A.ns + 1, c["ns"] == A.ns)
        yield "the location is flagged as reused only if it is", z3.Implies(z3.Not(reuse), z3.Not(fl))
        new = st.ghost.get("new", ())
        yield "at most one segment is allocated", z3.BoolVal(len(new) <= 1)
        if new:
            yield "a segment has room for its elements and the link", new[0][1] >= A.N * A.es + 8
        S2 = z3.Store(A.S, A.ns, new[0][0]) if new else A.S
        m2 = z3.If(reuse, A.mm, z3.If(z3.And(A.ns > 0, A.mm < A.N), A.mm + 1, 1))
        c.update(m=m2, S=S2, KK=A.KK, II=A.II)
        c["ne"] = c["ne"] + z3.If(reuse, 0, 1)
        yield "the location is a slot of the pool", z3.Implies(z3.Not(reuse), loc == S2[c["ns"] - 1] + es * (m2 - 1))
        k, i, b = z3.Ints("k i b")
        yield "the location overlaps no element", z3.Implies(z3.And(z3.Not(reuse), A.is_slot(k, i)), z3.Or(loc >= A.addr(k, i) + es, loc + es <= A.addr(k, i)))
        yield "elements do not move and keep their contents", z3.Implies(z3.And(A.is_slot(k, i), b >= 0, b < es), z3.And(S2[k] == A.S[k], same_memory(A, st, k, i, b)))
        yield from PS.inv_goals(A, st, c)
    method("_lfp", "location_for_placement()", lfp, None, lfp_post)

    # insert
    for case in ("reused", "fresh"):
        def ins(ex, st, A, case=case):
            arr, h, t, s, qt = A.q
            if case == "reused":
                st.pc.append(h < t)
                A.loc = z3.Select(arr, h)
            else:
                st.pc += [h == t, A.ns > 0]
                A.loc = A.addr(A.ns - 1, A.mm - 1)
            return [Ptr(A.obj, 0), A.loc]

        def ins_pre(A, case=case):
            # between location_for_placement and insert the new element is not counted
            return {"ne": A.ne + (1 if case == "fresh" else 0)}

        def ins_post(ex, st, A, case=case):
            c = A.read(ex, st)
            c.update(m=A.mm, S=A.S, KK=A.KK, II=A.II)
            arr, h, t, s, qt = A.q
            yield "size grows by one", c["ne"] == A.ne + 1
            yield "the location is no longer available", z3.Not(z3.Select(c["q"][3], A.loc))
            x = z3.Int("x")
            yield "other available locations stay available", z3.Implies(x != A.loc, z3.Select(c["q"][3], x) == z3.Select(s, x))
            yield from PS.inv_goals(A, st, c)
        method("_insert", f"insert(element) [{case} location]", ins, ins_pre, ins_post)

    # erase
    def era(ex, st, A):
        k, i = z3.Ints("ek ei")
        A.ek, A.ei = k, i
        A.loc = A.addr(k, i)
        st.pc += [A.is_slot(k, i), z3.Not(z3.Select(A.q[3], A.loc))]
        return [Ptr(A.obj, 0), A.loc]

    def era_post(ex, st, A):
        c = A.read(ex, st)
        c.update(m=A.mm, S=A.S, KK=z3.Store(A.KK, A.loc, A.ek), II=z3.Store(A.II, A.loc, A.ei))
        x = z3.Int("x")
        yield "size decreases by one", c["ne"] == A.ne - 1
        yield "the location becomes available", z3.Select(c["q"][3], A.loc)
        yield "no other location becomes available", z3.Implies(x != A.loc, z3.Select(c["q"][3], x) == z3.Select(A.q[3], x))
        yield "capacity does not change", c["ns"] == A.ns
        yield from PS.inv_goals(A, st, c)
    method("_erase", "erase(element)", era, None, era_post)

    # move constructor
    def mov(ex, st, A):
        o = ex.new_obj(st, "dest", A.size, "param")
        ex.objbyid[o.id] = o
        A.dest = o
        return [Ptr(o, 0), Ptr(A.obj, 0)]

    def mov_post(ex, st, A):
        c = A.read(ex, st, A.dest, 0)
        c.update(m=A.mm, S=A.S, KK=A.KK, II=A.II)
        yield "the destination has the segments and elements of the source", z3.And(
            c["N"] == A.N, c["ns"] == A.ns, c["ne"] == A.ne, c["begin"] == A.begin, c["end"] == A.end, c["ea"] == A.ea)
        for n, g in PS.inv_goals(A, st, c):
            yield "destination: " + n, g
        d = A.read(ex, st)
        d.update(m=A.mm, S=A.S, KK=A.KK, II=A.II)
        yield "the source is empty", z3.And(d["ns"] == 0, d["ne"] == 0, d["begin"] == 0)
        for n, g in PS.inv_goals(A, st, d):
            yield "source: " + n, g
    method("_move", "SegmentedAllocator(SegmentedAllocator &&)", mov, None, mov_post)


def container(ctx, P, nm):
    containers.run(ctx, P, nm, "U02")
