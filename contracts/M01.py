"""M01: permutation_sign is the parity of the permutation."""
import ctypes, itertools, time
import z3
from engine.numeric import Harness
from engine import execu
from engine.execu import Ex, State, Ptr, sgn

WHERE = "mito::math::permutation_sign<std::array<T,N>>"


def parity(s):
    inv = sum(1 for i in range(len(s)) for j in range(i) if s[j] > s[i])
    return -1 if inv % 2 else 1


def run(ctx):
    H = Harness(ctx, "combinatorics.cc")
    ctx.assume("the comparison of the elements is a strict total order and == is its equality (checked for the integer instances)")
    ctx.assume("array lengths: N = 1..4 are the instances the library uses (N+1 facets or vertices of a simplex); each is verified for all contents")
    for n in (1, 2, 3, 4):
        check(ctx, H, n)
    check(ctx, H, 5, sample=True)


def native(H, n, data, ref):
    f = getattr(H.native(), f"perm_{n}")
    a, b = (ctypes.c_long * n)(*data), (ctypes.c_long * n)(*ref)
    return f(a, b)


def check(ctx, H, n, sample=False):
    name = f"perm_{n}"
    if sample:
        bad = None
        for s in itertools.permutations(range(n)):
            r = native(H, n, [10 * k + 3 for k in s], [10 * k + 3 for k in range(n)])
            if r != parity(s):
                bad = (s, r)
                break
        if bad:
            fail(ctx, H, n, bad[0], list(range(n)), bad[1], parity(bad[0]), f"{name}.all orders of 5 elements")
        else:
            ctx.stand_in(f"permutation_sign, N={n}", f"all {n}! orders of one content, compiled code", where=WHERE)
        return
    for s in itertools.permutations(range(n)):
        t0 = time.time()
        ex = Ex(H.mod, max_paths=20000)
        ex.objbyid = {}
        st = State()
        v = [z3.Int(f"x{i}") for i in range(n)]
        st.pc += [v[i] != v[j] for i in range(n) for j in range(i)]
        a, b = ex.new_obj(st, "data", 8 * n, "stack"), ex.new_obj(st, "ref", 8 * n, "stack")
        for i in range(n):
            st.mem[a.id][8 * i] = (8, v[s[i]])
            st.mem[b.id][8 * i] = (8, v[i])
        ob = f"{name}[{s}]: result == {parity(s)}, no assertion fails"
        try:
            paths = ex.run(H.mod.funcs[name], [Ptr(a, 0), Ptr(b, 0)], st)
        except execu.Unsupported as e:
            ctx.notes.append(f"{name}: {e}")
            bad = None
            for o in itertools.permutations(range(n)):
                r = native(H, n, [o[k] for k in s], list(o))
                if r != parity(s):
                    bad = (o, r)
            if bad:
                fail(ctx, H, n, [bad[0][k] for k in s], list(bad[0]), bad[1], parity(s), ob)
            else:
                ctx.stand_in(ob, f"not verifiable ({e}); all orders on the compiled code", where=WHERE)
            continue
        ctx.inlined |= ex.executed
        ctx.solver_time += ex.solver_time
        ok = True
        for p in paths:
            r = p.retval
            if p.status == "ret" and isinstance(r, int) and sgn(r, 32) == parity(s):
                continue
            ok = False
            sol = z3.Solver()
            for c in p.pc:
                sol.add(c)
            if p.status == "ret" and not isinstance(r, int):
                sol.add(r != parity(s))
            sol.add(*[z3.And(x > -1000, x < 1000) for x in v])
            if sol.check() != z3.sat:
                if sol.check() == z3.unsat:
                    ok = True
                    continue
                ctx.failed(ob, f"undecided: {p.status}", WHERE)
                break
            m = sol.model()
            x = [m.eval(k, model_completion=True).as_long() for k in v]
            got = p.status if p.status != "ret" else native(H, n, [x[k] for k in s], x)
            fail(ctx, H, n, [x[k] for k in s], x, got, parity(s), ob)
            break
        if not paths:
            raise RuntimeError("no path (vacuous)")
        if ok:
            ctx.discharged(ob + f" ({len(paths)} orders)", "z3", WHERE, time.time() - t0)
            ctx.vacuity_ok()


def fail(ctx, H, n, data, ref, got, want, ob):
    confirmed = isinstance(got, int) and got != want
    if not confirmed:
        confirmed = crashes(H, n, data, ref)
    ctx.failed(ob, f"permutation_sign({data}, {ref}) gives {got}, required {want}", WHERE,
               replay=dict(kind="ccall", harness="combinatorics.cc", fn=f"perm_{n}", args=[list(data), list(ref)], observed=got, required=want),
               confirmed=confirmed)


def crashes(H, n, data, ref):
    import os
    pid = os.fork()
    if pid == 0:
        d = os.open("/dev/null", os.O_WRONLY)
        os.dup2(d, 2)
        try:
            native(H, n, data, ref)
        finally:
            os._exit(0)
    return os.waitpid(pid, 0)[1] != 0
