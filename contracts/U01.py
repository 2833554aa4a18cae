"""U01: reference counts of shared handles equal the number of live handles.

Every operation on handles is executed from an arbitrary state: arbitrary counts, each handle null or
referring to an arbitrary resource (possibly the same, possibly the same handle twice).  The contract:
the count of every resource changes by the number of live non-null handles to it that the operation adds,
and no memory but the counts is read or written.  Hence, by induction over any sequence of operations, the
count of a resource is the number of live non-null handles to it."""
import z3
from engine.execu import State, Ptr, Unsupported, PathLimit
from .pool_spec import Pool, Prover, I_, iv
from . import pool_spec as PS, containers

SP = "mito::utilities::SharedPointer<T>"


def run(ctx):
    P = Pool(ctx)
    ctx.assume("machine integers are read as mathematical integers (reference counts do not overflow)",
               "a handle is null or refers to a resource that is alive; distinct resources do not overlap",
               "T = a resource of 16 bytes; the code does not depend on T except through its count and its size")
    handles(ctx, P)
    for nm in ("r0", "r3"):
        resource(ctx, P, nm)
    PS.parallel(ctx, [lambda c, nm=nm: containers.run(c, P, nm, "U01") for nm in ("r0", "r3")])
    PS.conclude(ctx, "U01")


def fallback(ctx):
    PS.fallback(ctx, "U01")


def val(ex, st, o):
    c = st.mem[o.id].get(0)
    if c is None or c[0] != 8:
        raise Unsupported("the content of a handle")
    return iv(ex.to_int(c[1]) if isinstance(c[1], Ptr) else c[1])


def run_one(ctx, P, fname, title, objs, alias, post, args=None, rc=8):
    """objs: names of the handles in order; those in `live` hold a value before; alias: the second is the first"""
    fn = P.mod.funcs[fname]
    ex = P.ex()
    st = State()
    ex.heap_init(st)
    st.ghost["alive"] = PS.AI("alive")
    V, O = {}, {}
    try:
        for n, live in objs:
            if alias and n == "b":
                O["b"], V["b"] = O["a"], V["a"]
                continue
            o = ex.new_obj(st, "handle_" + n, 8, "param")
            ex.objbyid[o.id] = o
            O[n] = o
            if live:
                V[n] = z3.Int("v" + n)
                st.pc += [V[n] >= 0]
                st.cells(o, True)[0] = (8, V[n])
        # resources: a count is not negative; distinct resources do not overlap
        vs = list(V.values())
        if len(vs) == 2 and not alias:
            st.pc.append(z3.Or(vs[0] == vs[1], vs[0] + 16 <= vs[1], vs[1] + 16 <= vs[0], vs[0] == 0, vs[1] == 0))
        A = type("A", (), {})()
        A.heap0 = dict(st.heap)
        a = args(ex, st, O, V) if args else [Ptr(O[n], 0) for n, _ in objs]
        known = list(V.values()) + [x for x in a if z3.is_expr(x)]

        def on_flat(st, addr, size, write):
            st.obls.append(("only counts of resources the handles refer to are accessed (no null handle is dereferenced)",
                            z3.Or(*[z3.And(v != 0, addr == v + rc, size == 4) for v in known]) if known else z3.BoolVal(False)))
        ex.on_flat = on_flat
        pv = Prover(ctx, ex)
        ctx.vacuity_ok()
        paths = ex.run(fn, a, st)
        PS.discharge(ctx, ex, pv, paths, title, A, lambda ex, st, A: post(ex, st, A, O, V))
    except (Unsupported, PathLimit) as e:
        PS.unsupported(ctx, title, e)


def counts(st, A, V, before, after, rc):
    """the count at an arbitrary address changes by the number of handles added"""
    x = z3.Int("x")
    n = lambda hs: z3.Sum([z3.IntVal(0)] + [z3.If(h == x, 1, 0) for h in hs])
    yield "counts change by the number of live handles added", z3.Implies(
        x != 0, z3.Select(st.heap[4], x + rc) == z3.Select(A.heap0[4], x + rc) + n(after) - n(before))
    yield "nothing else is written", z3.BoolVal(all(st.heap[w].eq(A.heap0[w]) for w in (8, 1)))


def handles(ctx, P):
    from engine.execu import Ex
    lay = [Ex(P.mod).run(P.mod.funcs["h_layout"], [i])[0].retval for i in range(4)]
    size, hoff, rsize, rc = lay
    if size != 8 or hoff != 0:
        PS.unsupported(ctx, "handles", "layout of a handle")
        return

    def op(fname, title, objs, result, alias=False):
        """result(V) -> {handle: expected value after}; handles not in the result are dead after"""
        def post(ex, st, A, O, V):
            want = result(V)
            after = []
            done = set()
            for n, w in want.items():
                if alias and n == "b":
                    continue
                v = val(ex, st, O[n])
                after.append(v)
                if w is not None:
                    yield f"value of handle {n}", v == w
            before = [v for n, v in V.items() if not (alias and n == "b")]
            yield from counts(st, A, V, before, after, rc)
        run_one(ctx, P, fname, f"{SP}::{title}", objs, alias, post, rc=rc)

    L, D = True, False
    zero = z3.IntVal(0)
    op("h_default", "SharedPointer()", [("a", D)], lambda V: {"a": zero})
    op("h_copy", "SharedPointer(const SharedPointer &)", [("a", D), ("b", L)], lambda V: {"a": V["b"], "b": V["b"]})
    op("h_move", "SharedPointer(SharedPointer &&)", [("a", D), ("b", L)], lambda V: {"a": V["b"], "b": zero})
    op("h_assign", "operator=(const SharedPointer &)", [("a", L), ("b", L)], lambda V: {"a": V["b"], "b": V["b"]})
    op("h_assign", "operator=(const SharedPointer &) [self]", [("a", L), ("b", L)], lambda V: {"a": V["a"], "b": None}, alias=True)
    op("h_massign", "operator=(SharedPointer &&)", [("a", L), ("b", L)], lambda V: {"a": V["b"], "b": zero})
    op("h_massign", "operator=(SharedPointer &&) [self]", [("a", L), ("b", L)], lambda V: {"a": None, "b": None}, alias=True)
    op("h_dtor", "~SharedPointer()", [("a", L)], lambda V: {})
    op("h_reset", "reset()", [("a", L)], lambda V: {"a": zero})
    op("h_value", "passed and returned by value", [("a", D), ("b", L)], lambda V: {"a": V["b"], "b": V["b"]})
    op("h_swap", "std::swap of two handles", [("a", L), ("b", L)], lambda V: {"a": V["b"], "b": V["a"]})

    # construction from a resource
    def wrap(ex, st, O, V):
        r = z3.Int("r")
        st.pc.append(r >= 0)
        return [Ptr(O["a"], 0), r]

    def wrap_post(ex, st, A, O, V):
        v = val(ex, st, O["a"])
        yield "the handle refers to the resource", v == z3.Int("r")
        yield from counts(st, A, V, [], [v], rc)
    run_one(ctx, P, "h_wrap", f"{SP}::SharedPointer(T *)", [("a", D)], False, wrap_post, wrap, rc)

    # observers
    def obs(fname, title, objs, what, alias=False, nonnull=False):
        def args(ex, st, O, V):
            if nonnull:
                st.pc.append(V["a"] != 0)
            return [Ptr(O[n], 0) for n, _ in objs]

        def post(ex, st, A, O, V):
            r = st.retval
            r = r if z3.is_bool(r) else iv(ex.to_int(r) if isinstance(r, Ptr) else r)
            w = what(V, A)
            if z3.is_bool(w) and not z3.is_bool(r):
                r = r != 0
            yield "result", r == w
            vs = [val(ex, st, O[n]) for n in O if not (alias and n == "b")]
            yield "handles are not changed", z3.And(*[v == V[n] for n, v in zip([n for n in O if not (alias and n == "b")], vs)])
            yield from counts(st, A, V, vs, vs, rc)
        run_one(ctx, P, fname, f"{SP}: {title}", objs, alias, post, args, rc)
    one, two = [("a", L)], [("a", L), ("b", L)]
    obs("h_references", "references()", one, lambda V, A: z3.Select(A.heap0[4], V["a"] + rc), nonnull=True)
    obs("h_valid", "is_valid() of the resource", one, lambda V, A: z3.Select(A.heap0[4], V["a"] + rc) > 0, nonnull=True)
    obs("h_is_nullptr", "is_nullptr()", one, lambda V, A: V["a"] == 0)
    obs("h_arrow", "operator->()", one, lambda V, A: V["a"])
    obs("h_id", "id()", one, lambda V, A: V["a"])
    obs("h_equal", "operator==", two, lambda V, A: V["a"] == V["b"])
    obs("h_equal", "operator== [self]", two, lambda V, A: z3.BoolVal(True), alias=True)
    obs("h_less", "operator<", two, lambda V, A: V["a"] < V["b"])

    # a new resource has no references
    fn = P.mod.funcs["h_newres"]
    ex = P.ex()
    st = State()
    ex.heap_init(st)
    title = "mito::utilities::Shareable::Shareable()"
    try:
        r = z3.Int("r")
        st.pc.append(r > 0)
        st.ghost["alive"] = z3.K(I_, z3.IntVal(0))
        PS.discharge(ctx, ex, Prover(ctx, ex), ex.run(fn, [r], st), title, None,
                     lambda ex, st, A: [("a new resource has no references", z3.Select(st.heap[4], r + rc) == 0)])
    except (Unsupported, PathLimit) as e:
        PS.unsupported(ctx, title, e)


def resource(ctx, P, nm):
    """handles made by a repository from an identifier: Repository::resource"""
    fn = P.mod.funcs[nm + "_resource"]
    ex = P.ex()
    st = State()
    ex.heap_init(st)
    title = f"mito::utilities::Repository::resource(id) [{nm}]"
    rc = 8
    try:
        o = ex.new_obj(st, "handle", 8, "param")
        ex.objbyid[o.id] = o
        r = z3.Int("r")
        st.pc.append(r > 0)
        A = type("A", (), {})()
        A.heap0 = dict(st.heap)

        def post(ex, st, A):
            v = val(ex, st, o)
            yield "the handle refers to the resource with that identifier", v == r
            yield from counts(st, A, {}, [], [v], rc)
        PS.discharge(ctx, ex, Prover(ctx, ex), ex.run(fn, [r, Ptr(o, 0)], st), title, A, post)
    except (Unsupported, PathLimit) as e:
        PS.unsupported(ctx, title, e)
