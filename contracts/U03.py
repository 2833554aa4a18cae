"""U03: iteration over pooled storage visits exactly the valid elements, once each, in storage order."""
import z3
from engine.execu import State, Ptr, Unsupported, PathLimit
from .pool_spec import Pool, AState, Iterators, I_, q, iv
from . import pool_spec as PS, containers

AIT = "mito::utilities::SegmentedAllocatorIterator"
CIT = "mito::utilities::SegmentedContainerIterator"


def run(ctx):
    P = Pool(ctx)
    PS.assume_common(ctx)
    ctx.assume("validity of an element is what its is_valid() reads: a positive reference count, or the validity flag",
               "positions (k, i) are ordered lexicographically; random access by index i is the slot (i / N, i % N)")
    PS.parallel(ctx, [lambda c, nm=nm, f=f: f(c, P, nm) for nm in ("r0", "r3", "c0", "c3") for f in (allocator, container, validity)])
    PS.conclude(ctx, "U03")


def fallback(ctx):
    PS.fallback(ctx, "U03")


def allocator(ctx, P, nm):
    es = P.layout(nm)[("_layout", 9)]
    tag = f"{nm}: element of {es} bytes"

    def method(suffix, title, args, post):
        PS.method(ctx, P, nm, nm + suffix, f"{title} [{tag}]", args, None, post)

    def itobj(ex, st, A, name="it"):
        A.its = getattr(A, "its", None) or Iterators(P, ex, A, use=False)
        o = ex.new_obj(st, name, A.isize, "param")
        ex.objbyid[o.id] = o
        return o

    def at(ex, st, A, o, k, i, end=False):
        """an arbitrary iterator at position (k, i)"""
        A.its.put(st, o, 0, k, i)
        st.pc.append(z3.Or(A.is_slot(k, i), z3.And(k == A.ns - 1, i == A.mm)) if end else A.is_slot(k, i))

    # begin, end
    def beg(ex, st, A):
        A.out = itobj(ex, st, A)
        return [Ptr(A.obj, 0), Ptr(A.out, 0)]

    def beg_post(ex, st, A):
        k, i = z3.IntVal(0), z3.IntVal(0)
        yield "the iterator is at the first slot (at the end if there is none)", A.its.inv(st, A.out.id, 0, k, i)
        yield from PS.unchanged(ex, st, A)

    def end_post(ex, st, A):
        yield "the iterator is at the end", A.its.inv(st, A.out.id, 0, A.ns - 1, A.mm)
        yield from PS.unchanged(ex, st, A)
    method("_begin", "SegmentedAllocator<T>::begin()", beg, beg_post)
    method("_end", "SegmentedAllocator<T>::end()", beg, end_post)

    # increments
    def inc(ex, st, A):
        A.out = itobj(ex, st, A)
        A.k, A.i = z3.Ints("pk pi")
        at(ex, st, A, A.out, A.k, A.i)
        return [Ptr(A.out, 0)]

    def inc_post(ex, st, A):
        k2, i2 = A.its.next(A.k, A.i)
        yield "the iterator is at the next slot (at the end after the last)", A.its.inv(st, A.out.id, 0, k2, i2)
        k, i = z3.Ints("k i")
        yield "no slot is skipped", z3.Not(z3.And(A.is_slot(k, i), A.its.before((A.k, A.i), (k, i)), A.its.before((k, i), (k2, i2))))
        yield from PS.unchanged(ex, st, A)
    method("_inc", f"{AIT}::operator++()", inc, inc_post)

    def post_args(ex, st, A):
        inc(ex, st, A)
        A.clone = itobj(ex, st, A, "clone")
        return [Ptr(A.out, 0), Ptr(A.clone, 0)]

    def post_post(ex, st, A):
        yield from inc_post(ex, st, A)
        yield "the returned iterator is at the old position", A.its.inv(st, A.clone.id, 0, A.k, A.i)
    method("_post", f"{AIT}::operator++(int)", post_args, post_post)

    for s, t in (("_deref", "operator*()"), ("_arrow", "operator->()")):
        method(s, f"{AIT}::{t}", inc, lambda ex, st, A: [("the element at the position", iv(st.retval) == A.addr(A.k, A.i))] + PS.unchanged(ex, st, A))

    # comparisons
    def two(ex, st, A):
        A.out, A.two = itobj(ex, st, A), itobj(ex, st, A, "jt")
        A.k, A.i, A.k2, A.i2 = z3.Ints("pk pi qk qi")
        st.pc.append(A.ns > 0)
        at(ex, st, A, A.out, A.k, A.i, True)
        at(ex, st, A, A.two, A.k2, A.i2, True)
        return [Ptr(A.out, 0), Ptr(A.two, 0)]
    for s, neg in (("_eq", False), ("_ne", True)):
        def cmp_post(ex, st, A, neg=neg):
            same = z3.And(A.k == A.k2, A.i == A.i2)
            yield "iterators are equal iff they are at the same position", (iv(st.retval) != 0) == (z3.Not(same) if neg else same)
            yield from PS.unchanged(ex, st, A)
        method(s, f"{AIT}: operator{'!=' if neg else '=='}", two, cmp_post)

    # random access
    def idx(ex, st, A):
        A.index = z3.Int("index")
        A.at = k, i = z3.Ints("k i")
        # any index within the segments is that of one position
        st.pc += [k >= 0, k < A.ns, i >= 0, i < A.N, A.index == k * A.N + i]
        ex.divisions = [(A.index, k, i)]
        return [Ptr(A.obj, 0), A.index]

    def idx_post(ex, st, A):
        k, i = A.at
        yield "the element at that position", iv(st.retval) == A.addr(k, i)
        yield from PS.unchanged(ex, st, A)
    method("_at", "SegmentedAllocator<T>::operator[](int)", idx, idx_post)
    method("_cat", "SegmentedAllocator<T>::operator[](int) const", idx, idx_post)


def container(ctx, P, nm):
    L = P.layout(nm)
    es, kind = L[("_layout", 9)], "Repository" if nm[0] == "r" else "SegmentedVector"
    tag = f"{nm}: {kind}, element of {es} bytes"
    coff, csize, isz, ioff = (L[("_clayout", i)] for i in range(4))

    def valid(st, A, k, i):
        # what is_valid() of the element reads
        a = A.addr(k, i) + 8
        return z3.Select(st.heap[4], a) > 0 if nm[0] == "r" else z3.Select(st.heap[1], a) % 2 != 0

    def method(suffix, title, args, post):
        def extra(ex, st, A):
            A.its = Iterators(P, ex, A)
            v = lambda s, k, i: valid(s, A, k, i)
            A.candidates = [A.its.candidates(v)]
            A.measures = [A.its.measures]
            x = z3.Int("x")
            if nm[0] == "c":
                st.pc.append(z3.ForAll([x], z3.And(z3.Select(st.heap[1], x) >= 0, z3.Select(st.heap[1], x) <= 1), patterns=[z3.Select(st.heap[1], x)]))
        PS.method(ctx, P, nm, nm + suffix, f"{title} [{tag}]", args, None, post, extra, off=coff, size=csize)

    def itobj(ex, st, A, name="it"):
        o = ex.new_obj(st, name, isz, "param")
        ex.objbyid[o.id] = o
        return o

    def first_valid(ex, st, A, o, after, incl):
        """the iterator o is at the first valid element after the position (or at it, if incl), or at the end"""
        g = st.ghost.get(("it", o.id, ioff))
        if g is None:
            raise Unsupported("iterator at an unknown position")
        k, i = z3.Ints("k i")
        its = A.its
        yield "the iterator is at a position of the pool", its.inv(st, o.id, ioff, *g)
        yield "the iterator is at a valid element or at the end", z3.Or(its.is_end(*g), z3.And(A.is_slot(*g), valid(st, A, *g)))
        lo = its.before(after, (k, i)) if not incl else z3.Or(its.before(after, (k, i)), z3.And(after[0] == k, after[1] == i))
        yield "no valid element is skipped", z3.Not(z3.And(A.ns > 0, A.is_slot(k, i), lo, its.before((k, i), g), valid(st, A, k, i)))
        if not incl:
            yield "the iterator moves forward", its.before(after, g)
        yield from PS.unchanged(ex, st, A)

    def beg(ex, st, A):
        A.out = itobj(ex, st, A)
        return [Ptr(A.obj, 0), Ptr(A.out, 0)]
    method("_cbegin", f"{kind}::begin()", beg, lambda ex, st, A: first_valid(ex, st, A, A.out, (z3.IntVal(0), z3.IntVal(0)), True))

    def end_post(ex, st, A):
        g = st.ghost.get(("it", A.out.id, ioff))
        if g is None:
            raise Unsupported("iterator at an unknown position")
        yield "the iterator is at the end", z3.And(A.its.is_end(*g), A.its.inv(st, A.out.id, ioff, *g))
        yield from PS.unchanged(ex, st, A)
    method("_cend", f"{kind}::end()", beg, end_post)

    def inc(ex, st, A):
        A.out = itobj(ex, st, A)
        A.k, A.i = z3.Ints("pk pi")
        A.its.put(st, A.out, ioff, A.k, A.i)
        st.pc.append(A.is_slot(A.k, A.i))
        return [Ptr(A.out, 0)]
    method("_cinc", f"{CIT}::operator++() [{kind}]", inc, lambda ex, st, A: first_valid(ex, st, A, A.out, (A.k, A.i), False))

    def pinc(ex, st, A):
        inc(ex, st, A)
        A.clone = itobj(ex, st, A, "clone")
        return [Ptr(A.out, 0), Ptr(A.clone, 0)]

    def pinc_post(ex, st, A):
        yield from first_valid(ex, st, A, A.out, (A.k, A.i), False)
        yield "the returned iterator is at the old position", A.its.inv(st, A.clone.id, ioff, A.k, A.i)
    method("_cpost", f"{CIT}::operator++(int) [{kind}]", pinc, pinc_post)

    def two(ex, st, A):
        A.out, A.two = itobj(ex, st, A), itobj(ex, st, A, "jt")
        A.k, A.i, A.k2, A.i2 = z3.Ints("pk pi qk qi")
        st.pc.append(A.ns > 0)
        for o, k, i in ((A.out, A.k, A.i), (A.two, A.k2, A.i2)):
            A.its.put(st, o, ioff, k, i)
            st.pc.append(z3.Or(A.is_slot(k, i), z3.And(k == A.ns - 1, i == A.mm)))
        return [Ptr(A.out, 0), Ptr(A.two, 0)]
    for s, neg in (("_ceq", False), ("_cne", True)):
        def cmp_post(ex, st, A, neg=neg):
            same = z3.And(A.k == A.k2, A.i == A.i2)
            yield "iterators are equal iff they are at the same position", (iv(st.retval) != 0) == (z3.Not(same) if neg else same)
            yield from PS.unchanged(ex, st, A)
        method(s, f"{CIT}: operator{'!=' if neg else '=='} [{kind}]", two, cmp_post)

    if nm[0] == "r":
        def dr(ex, st, A):
            inc(ex, st, A)
            A.h = itobj(ex, st, A, "handle")
            return [Ptr(A.out, 0), Ptr(A.h, 0)]

        def dr_post(ex, st, A):
            a = A.addr(A.k, A.i)
            h = st.mem[A.h.id][0][1]
            yield "a handle to the element at the position", iv(ex.to_int(h) if isinstance(h, Ptr) else h) == a
            yield "the handle is counted", z3.Select(st.heap[4], a + 8) == z3.Select(A.heap0[4], a + 8) + 1
        method("_cderef", f"{CIT}::operator*() [{kind}]", dr, dr_post)
    else:
        for s, t in (("_cderef", "operator*()"), ("_arrow2", "operator->()")):
            method(s, f"{CIT}::{t} [{kind}]", inc, lambda ex, st, A: [("the element at the position", iv(st.retval) == A.addr(A.k, A.i))] + PS.unchanged(ex, st, A))

        def idx(ex, st, A):
            A.index = z3.Int("index")
            A.at = k, i = z3.Ints("k i")
            # any index within the segments is that of one position
            st.pc += [k >= 0, k < A.ns, i >= 0, i < A.N, A.index == k * A.N + i]
            ex.divisions = [(A.index, k, i)]
            return [Ptr(A.obj, 0), A.index]

        def idx_post(ex, st, A):
            k, i = A.at
            yield "the element at that position", iv(st.retval) == A.addr(k, i)
            yield from PS.unchanged(ex, st, A)
        method("_cat2", f"{kind}::operator[](int)", idx, idx_post)
        method("_ccat2", f"{kind}::operator[](int) const", idx, idx_post)


def validity(ctx, P, nm):
    containers.run(ctx, P, nm, "U03")
