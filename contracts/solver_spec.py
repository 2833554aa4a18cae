"""Contracts on the linear systems and solvers (PETSc back end) and on LinearSolver.

PETSc is a library with assumed contracts: vectors, matrices and Krylov solvers are ghost objects, each function of
PETSc a transition of their ghost state (below, `petsc`), with its precondition as an obligation of the caller.
  vector   comm, n (global size), local (part of this process: an arbitrary part, unless the vector is sequential),
           ready (type set), content (a name for its values), stash (values set since the last assembly)
  matrix   comm, n, m, ready, stash
  ksp      A, P
Values: doubles pass through unchanged (symbolic), integers are symbolic integers."""
import z3
from engine import frontend as F, ir, reals as R
from engine.execu import Ex, State, Ptr, NULL, Unsupported, PathLimit
from engine.names import parse
from .pool_spec import ir_ptr, ir_int, Prover, discharge
from . import pool_spec as PS
import re

I_, B_ = z3.IntSort(), z3.BoolSort()
And, Or, Not, Implies = z3.And, z3.Or, z3.Not, z3.Implies


class Double:
    kind, size, bits = "double", 8, 64


class SEx(Ex):
    pass


class Solvers:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("solver.cc"), "O0raw"))
        e = Ex(self.mod)
        self.lay = []
        for i in range(18):
            p = e.run(self.mod.funcs["solver_layout"], [i])
            if len(p) != 1 or not isinstance(p[0].retval, int):
                raise Unsupported("layout of the classes")
            v = p[0].retval & ((1 << 64) - 1)
            self.lay.append(v - (1 << 64) if v >> 63 else v)
        if self.lay[16] != 4:
            raise Unsupported("integers of PETSc")

    # ------------------------------------------------------------ state
    def obj(self, ex, st, n, name):
        o = ex.new_obj(st, name, n, "param")
        ex.objbyid[o.id] = o
        return o

    def make(self, ex, st, kind, **kw):
        o = self.obj(ex, st, 0, kind)
        st.ghost[("ps", o.id)] = dict(kind=kind, alive=True, **kw)
        return Ptr(o, 0)

    def vec(self, ex, st, name, n=None, **kw):
        n = z3.Int("n_" + name) if n is None else n
        loc = z3.FreshConst(I_, "local")
        st.pc += [loc >= 0, loc <= n]
        return self.make(ex, st, "vec", **dict(dict(comm="world", n=n, local=loc, ready=True, content=name, stash=True), **kw))

    def g(self, st, p, kind=None):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported("handle of PETSc: " + str(p))
        d = st.ghost.get(("ps", p.obj.id))
        if d is None:
            raise Unsupported("handle of PETSc: " + str(p))
        if kind and d["kind"] != kind:
            raise Unsupported(f"{d['kind']} in place of {kind}")
        return d

    def up(self, st, p, **kw):
        st.ghost[("ps", p.obj.id)] = dict(self.g(st, p), **kw)

    def req(self, st, what, f):
        st.obls.append((what, f if z3.is_expr(f) else z3.BoolVal(bool(f))))

    def note(self, st, *x):
        st.ghost["rec"] = st.ghost.get("rec", ()) + (x,)

    def comm(self, st, ex, a):
        # PETSC_COMM_WORLD is a variable of PETSc
        if isinstance(a, Ptr) and a.obj is not None and st.ghost.get("world") == a:
            return "world"
        return repr(a)

    # ------------------------------------------------------------ contracts on PETSc
    def install(self, ex):
        T = self
        L = self.lay
        i32 = lambda v: z3.IntVal(v - (1 << 32) if v >> 31 & 1 else v) if isinstance(v, int) else v

        def create(kind):
            def h(ex, st, a, I):
                p = T.make(ex, st, kind, comm=T.comm(st, ex, a[0]), n=None, ready=False, stash=False, content=None, local=None)
                ex.store(st, a[1], p, ir_ptr())
                return 0
            return h

        def vec_sizes(ex, st, a, I):
            d = T.g(st, a[0], "vec")
            T.req(st, "the local sizes are left to PETSc", i32(a[1]) == L[13])
            loc = z3.FreshConst(I_, "local")
            n = i32(a[2])
            st.pc += [loc >= 0, loc <= n]
            T.up(st, a[0], n=n, local=loc)
            return 0

        def mat_sizes(ex, st, a, I):
            T.g(st, a[0], "mat")
            T.req(st, "the local sizes are left to PETSc", And(i32(a[1]) == L[13], i32(a[2]) == L[13]))
            T.up(st, a[0], n=i32(a[3]), m=i32(a[4]))
            return 0

        def options(kind):
            def h(ex, st, a, I):
                d = T.g(st, a[0], kind)
                if kind != "ksp":
                    T.req(st, "the sizes are set before the type", d["n"] is not None)
                    T.up(st, a[0], ready=True)
                return 0
            return h

        def set_values(kind):
            def h(ex, st, a, I):
                d = T.g(st, a[0], kind)
                idx, k = [], 1
                for _ in range(2 if kind == "mat" else 1):
                    n, p = a[k], a[k + 1]
                    if n != 1:
                        raise Unsupported("several values at once")
                    idx.append(i32(ex.load(st, p, ir_int(32))))
                    k += 2
                v = ex.load(st, a[k], Double)
                mode = a[k + 1]
                if not isinstance(mode, int):
                    raise Unsupported("mode of insertion")
                T.req(st, "the object is alive and its type is set", d["alive"] and d["ready"])
                T.note(st, "set", a[0], tuple(idx), v, mode)
                T.up(st, a[0], stash=True, content=None)
                return 0
            return h

        def begin(kind):
            def h(ex, st, a, I):
                d = T.g(st, a[0], kind)
                T.req(st, "the object is alive", d["alive"])
                if kind == "mat":
                    T.up(st, a[0], begun=a[1])
                else:
                    T.up(st, a[0], begun=1)
                return 0
            return h

        def end(kind):
            def h(ex, st, a, I):
                d = T.g(st, a[0], kind)
                T.req(st, "the assembly that ends has begun", d.get("begun") is not None and (kind == "vec" or d["begun"] == a[1]))
                T.note(st, "assembled", a[0])
                T.up(st, a[0], begun=None, stash=d["stash"] and kind == "mat" and a[1] != L[14])
                return 0
            return h

        def destroy(kind):
            def h(ex, st, a, I):
                p = ex.load(st, a[0], ir_ptr())
                if isinstance(p, Ptr) and p.obj is None:
                    return 0
                d = T.g(st, p, kind)
                T.req(st, "nothing is destroyed twice", d["alive"])
                T.note(st, "destroyed", p)
                T.up(st, p, alive=False)
                ex.store(st, a[0], NULL, ir_ptr())
                return 0
            return h

        def operators(ex, st, a, I):
            T.g(st, a[0], "ksp"), T.g(st, a[1], "mat"), T.g(st, a[2], "mat")
            T.up(st, a[0], A=a[1], P=a[2])
            return 0

        def solve(ex, st, a, I):
            k, b, x = T.g(st, a[0], "ksp"), T.g(st, a[1], "vec"), T.g(st, a[2], "vec")
            A = k.get("A")
            if A is None:
                raise Unsupported("a solver without operators")
            for o in (A, k["P"]):
                T.req(st, "the matrix is assembled when the system is solved", not T.g(st, o)["stash"] and T.g(st, o)["alive"])
            T.req(st, "the right-hand side is assembled when the system is solved", not b["stash"] and b["alive"])
            T.req(st, "the solution is not the right-hand side", a[1] != a[2])
            T.note(st, "solve", A, k["P"], a[1], a[2])
            T.up(st, a[2], content=("solution", A.obj.id, a[1].obj.id), stash=False)
            return 0

        def get_array(ex, st, a, I):
            d = T.g(st, a[0], "vec")
            T.req(st, "the vector is assembled when it is read", d["alive"] and not d["stash"])
            o = T.obj(ex, st, 1 << 40, "values")
            st.ghost[("array", o.id)] = (a[0], d["content"], d["local"])
            st.ghost["out"] = st.ghost.get("out", ()) + (o.id,)
            ex.store(st, a[1], Ptr(o, 0), ir_ptr())
            return 0

        def restore(ex, st, a, I):
            p = ex.load(st, a[1], ir_ptr())
            k = ("array", p.obj.id)
            T.req(st, "the array restored is that of the vector", k in st.ghost and st.ghost[k][0] == a[0])
            st.ghost["out"] = tuple(i for i in st.ghost.get("out", ()) if i != p.obj.id)
            ex.store(st, a[1], NULL, ir_ptr())
            return 0

        def size(field):
            def h(ex, st, a, I):
                ex.store(st, a[1], T.g(st, a[0], "vec")[field], ir_int(32))
                return 0
            return h

        def ownership(ex, st, a, I):
            d = T.g(st, a[0], "vec")
            first = z3.FreshConst(I_, "first")
            st.pc += [first >= 0, first + d["local"] <= d["n"]]
            for p, v in ((a[1], first), (a[2], first + d["local"])):
                if isinstance(p, Ptr) and p.obj is not None:
                    ex.store(st, p, v, ir_int(32))
            return 0

        def duplicate(ex, st, a, I):
            d = T.g(st, a[0], "vec")
            T.req(st, "the vector duplicated has its type", d["ready"] and d["alive"])
            ex.store(st, a[1], T.make(ex, st, "vec", comm=d["comm"], n=d["n"], local=d["local"], ready=True, content=None, stash=False), ir_ptr())
            return 0

        def to_all(ex, st, a, I):
            """VecScatterCreateToAll: a scatter of the vector to a sequential vector on every process"""
            d = T.g(st, a[0], "vec")
            y = T.make(ex, st, "vec", comm="self", n=d["n"], local=d["n"], ready=True, content=None, stash=False)
            s = T.make(ex, st, "scatter", x=a[0], y=y)
            ex.store(st, a[1], s, ir_ptr())
            ex.store(st, a[2], y, ir_ptr())
            return 0

        def scatter(last):
            def h(ex, st, a, I):
                s, x, y = T.g(st, a[0], "scatter"), T.g(st, a[1], "vec"), T.g(st, a[2], "vec")
                T.req(st, "the vectors are those of the scatter", And(z3.BoolVal(a[1] == s["x"]), z3.BoolVal(a[2] == s["y"])))
                T.req(st, "values are inserted, forward", a[3] == L[12] and a[4] == L[15])
                T.req(st, "the vector is assembled when it is scattered", not x["stash"] and x["alive"] and y["alive"] and s["alive"])
                if last:
                    T.req(st, "the scatter that ends has begun", s.get("begun") == x["content"] and s.get("begun") is not None)
                    T.up(st, a[0], begun=None)
                    T.up(st, a[2], content=x["content"])
                else:
                    T.up(st, a[0], begun=x["content"])
                return 0
            return h

        def nothing(ex, st, a, I):
            return 0 if I.ty.kind == "int" else None if I.ty.kind == "void" else NULL
        H = {"VecCreate": create("vec"), "MatCreate": create("mat"), "KSPCreate": create("ksp"), "VecSetSizes": vec_sizes, "MatSetSizes": mat_sizes,
             "VecSetFromOptions": options("vec"), "MatSetFromOptions": options("mat"), "KSPSetFromOptions": options("ksp"), "VecSetValues": set_values("vec"),
             "MatSetValues": set_values("mat"), "VecAssemblyBegin": begin("vec"), "VecAssemblyEnd": end("vec"), "MatAssemblyBegin": begin("mat"),
             "MatAssemblyEnd": end("mat"), "VecDestroy": destroy("vec"), "MatDestroy": destroy("mat"), "KSPDestroy": destroy("ksp"), "VecScatterDestroy": destroy("scatter"),
             "KSPSetOperators": operators, "KSPSolve": solve, "VecGetArrayRead": get_array, "VecRestoreArrayRead": restore, "VecGetSize": size("n"),
             "VecGetLocalSize": size("local"), "VecGetOwnershipRange": ownership, "VecDuplicate": duplicate, "VecScatterCreateToAll": to_all, "VecScatterBegin": scatter(False), "VecScatterEnd": scatter(True)}
        for k in ("KSPSetOptionsPrefix", "MatSetUp", "VecSetUp", "KSPSetUp", "MatView", "VecView", "MatSetOption", "VecSetOption"):
            H[k] = nothing
        for k, h in H.items():
            ex.handlers[k] = h
        for k in ("ds_assemble", "ds_read", "ms_construct", "ms_create", "ms_solve", "ms_destroy", "ms_options"):
            ex.handlers[k] = lambda ex, st, a, I, k=k: T.note(st, k, *a)
        ex.handlers["ds_linear"] = lambda ex, st, a, I: st.ghost["linear"]
        ex.patterns.append((lambda d, f: True, self.library))

    # ------------------------------------------------------------ std
    def library(self, ex, st, a, I):
        d = ex.dname(ex.cur_fn)
        c, m, args = parse(d) or ("", "", "")
        if c.startswith("std::vector<double,") and len(a) >= 1 and isinstance(a[0], Ptr) and st.ghost.get("x") == a[0]:
            n, data = st.ghost["x_size"], st.ghost["x_data"]
            if m == "size":
                return n
            if m in ("begin", "data", "cbegin"):
                return data
            if m in ("end", "cend"):
                return ex.padd(data, 8 * n)
            raise Unsupported("vector::" + m)
        if re.search(r"\bstd::copy(_n)?<", d):
            src, dst = a[0], a[2]
            if isinstance(src, Ptr) and src.obj is not None and ("array", src.obj.id) in st.ghost:
                if "copy_n<" in d:
                    n = a[1] if z3.is_expr(a[1]) else z3.IntVal(a[1])
                else:
                    if a[1].obj is not src.obj:
                        raise Unsupported("copy of a part of an array")
                    n = (a[1].off - src.off) / 8
                i = lambda v: z3.IntVal(v) if isinstance(v, int) else v
                if not isinstance(dst, Ptr):
                    dst = ex.load(st, dst, ir_ptr())
                vec, content, local = st.ghost[("array", src.obj.id)]
                T = self
                T.req(st, "only the values of this process are read", And(i(src.off) >= 0, i(src.off) + 8 * n <= 8 * local))
                T.req(st, "the array is read before it is restored", src.obj.id in st.ghost.get("out", ()))
                T.note(st, "copy", content, i(src.off), dst, n)
                return dst if I.ty.kind == "ptr" else None
            raise Unsupported("std::copy")
        if "std::__cxx11::basic_string<" in d and (c.startswith("std::") or not c or c.startswith("std::__cxx11::basic_string<")):
            if I.ty.kind == "ptr":
                return a[0] if a else NULL
            return None if I.ty.kind == "void" else z3.FreshConst(I_, "string")
        if "pyre::journal::" in d or "std::basic_ostream<" in d:
            return a[0] if I.ty.kind == "ptr" else None if I.ty.kind == "void" else 0
        return NotImplemented


class Job:
    def __init__(self, ctx, T, title):
        self.ctx, self.T, self.title = ctx, T, title
        ex = self.ex = SEx(T.mod, max_steps=200000, max_paths=200)
        ex.objbyid = {}
        T.install(ex)
        self.pv = Prover(ctx, ex)
        self.L = T.lay

    def system(self, st, stash=True):
        """an arbitrary system that has been created"""
        T, ex, L = self.T, self.ex, self.L
        o = T.obj(ex, st, L[0], "system")
        c = st.cells(o, True)
        self.n = z3.Int("n")
        st.pc += [self.n >= 0, self.n < 1 << 31]
        self.A = T.make(ex, st, "mat", comm="world", n=self.n, m=self.n, ready=True, stash=stash)
        self.b = T.vec(ex, st, "rhs", self.n, stash=stash)
        self.x = T.vec(ex, st, "solution", self.n, stash=False)
        c[L[1]], c[L[2]], c[L[3]], c[L[4]] = (8, self.A), (8, self.b), (8, self.x), (4, self.n)
        self.sys = o
        return Ptr(o, 0)

    def krylov(self, st, stash=True):
        T, ex, L = self.T, self.ex, self.L
        s = self.system(st, stash)
        o = T.obj(ex, st, L[5], "krylov")
        self.k = T.make(ex, st, "ksp", A=self.A, P=self.A)
        c = st.cells(o, True)
        c[L[6]], c[L[7]] = (8, s), (8, self.k)
        self.kry = o
        return Ptr(o, 0)

    def run(self, fname, setup, post):
        ex, T, ctx = self.ex, self.T, self.ctx
        st = State()
        st.heap = {}
        w = T.obj(ex, st, 8, "world")
        st.ghost["world"] = Ptr(w, 0)
        try:
            args = setup(st)
            if "PETSC_COMM_WORLD" in T.mod.globals:
                g = ex.gobj("PETSC_COMM_WORLD")
                st.mem.setdefault(g.id, {})
                st.cells(g, True)[0] = (8, Ptr(w, 0))
            before = {o: dict(c) for o, c in st.mem.items()}
            ghosts = dict(st.ghost)
            paths = ex.run(T.mod.funcs[fname], args, st)
            ctx.vacuity_ok()

            def wrap(ex, p, A):
                for k, f in post(p):
                    yield k, f if z3.is_expr(f) else z3.BoolVal(bool(f))
                keep = all(p.ghost.get(k) == v for k, v in ghosts.items() if isinstance(k, tuple) and k[0] == "ps" and k[1] not in self.touched(p))
                yield "no other object is changed", z3.BoolVal(keep)
            discharge(ctx, ex, self.pv, paths, self.title, None, wrap)
            ctx.models |= {ex.dname(T.mod.funcs[n])[:100] for n in ex.contracted}
        except (Unsupported, PathLimit) as e:
            PS.unsupported(ctx, self.title, e)

    may = ()

    def touched(self, p):
        return {h.obj.id for h in self.may}

    def cell(self, p, o, off):
        x = p.cells(o).get(off)
        return None if x is None else x[1]


def rec(p, *kinds):
    return [r for r in p.ghost.get("rec", ()) if not kinds or r[0] in kinds]


def i_(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def job_values(ctx, T, what):
    """add_matrix_value, insert_matrix_value, add_rhs_value, insert_rhs_value"""
    J = Job(ctx, T, f"PETScLinearSystem::{ {'matrix': '%s_matrix_value', 'rhs': '%s_rhs_value'}[what.split('_')[1]] % what.split('_')[0] }")
    mat = "matrix" in what
    mode = T.lay[11] if what.startswith("add") else T.lay[12]
    v = R.var("value")
    i, j = z3.Ints("row col")

    def setup(st):
        s = J.system(st)
        J.may = (J.A if mat else J.b,)
        o = T.obj(J.ex, st, 8, "value")
        st.cells(o, True)[0] = (8, v)
        st.pc += [i >= 0, i < J.n, j >= 0, j < J.n]
        return [s] + ([i, j] if mat else [i]) + [Ptr(o, 0)]

    def post(p):
        r = rec(p)
        ok = len(r) == 1 and r[0][0] == "set"
        yield "one value is set", ok
        if ok:
            _, o, idx, x, m = r[0]
            yield "in the " + ("matrix" if mat else "right-hand side"), o == (J.A if mat else J.b)
            yield "at the row" + (" and the column" if mat else "") + " requested", And(*[q == w for q, w in zip(idx, (i, j))])
            yield "the value", R.equal(x, v) if hasattr(R, "equal") else x is v
            yield "accumulated" if what.startswith("add") else "replaced", m == mode
    J.run("system_" + what, setup, post)


def job_create(ctx, T):
    J = Job(ctx, T, "PETScLinearSystem::create")
    n = z3.Int("size")

    def setup(st):
        o = T.obj(J.ex, st, T.lay[0], "system")
        st.cells(o, True)
        J.sys = o
        st.pc += [n >= 0, n < 1 << 31]
        return [Ptr(o, 0), n]

    def post(p):
        L = T.lay
        A, b, x = (J.cell(p, J.sys, L[k]) for k in (1, 2, 3))
        ok = all(isinstance(h, Ptr) and h.obj is not None for h in (A, b, x))
        yield "the matrix, the right-hand side and the solution are created", ok
        if not ok:
            return
        yield "they are different", len({A.obj.id, b.obj.id, x.obj.id}) == 3
        for h, nm in ((A, "matrix"), (b, "right-hand side"), (x, "solution")):
            d = T.g(p, h)
            yield f"{nm}: of the kind", d["kind"] == ("mat" if h is A else "vec")
            yield f"{nm}: on all processes", d["comm"] == "world"
            yield f"{nm}: the size", d["n"] == n if d["n"] is not None else False
            if h is A:
                yield "matrix: square", d.get("m") == n if d.get("m") is not None else False
            yield f"{nm}: the type is set", d["ready"] and d["alive"]
        yield "the number of equations", i_(J.cell(p, J.sys, L[4])) == n if J.cell(p, J.sys, L[4]) is not None else False
    J.run("system_create", setup, post)


def job_equations(ctx, T):
    J = Job(ctx, T, "PETScLinearSystem::n_equations")
    J.run("system_equations", lambda st: [J.system(st)], lambda p: [("the number of equations", i_(p.retval) == J.n), ("nothing is done", not rec(p))])


def job_assemble(ctx, T):
    J = Job(ctx, T, "PETScLinearSystem::assemble")

    def setup(st):
        s = J.system(st)
        J.may = (J.A, J.b, J.x)
        return [s]

    def post(p):
        yield "the matrix is assembled", not T.g(p, J.A)["stash"] and T.g(p, J.A).get("begun") is None
        yield "the right-hand side is assembled", not T.g(p, J.b)["stash"] and T.g(p, J.b).get("begun") is None
        yield "no value changes", not rec(p, "set", "solve", "destroyed")
    J.run("system_assemble", setup, post)


def job_destroy(ctx, T):
    J = Job(ctx, T, "PETScLinearSystem::destroy")

    def setup(st):
        s = J.system(st)
        J.may = (J.A, J.b, J.x)
        return [s]
    J.run("system_destroy", setup, lambda p: [(f"the {nm} is destroyed", not T.g(p, h)["alive"]) for h, nm in ((J.A, "matrix"), (J.b, "right-hand side"), (J.x, "solution"))])


def job_solution(ctx, T):
    J = Job(ctx, T, "PETScLinearSystem::get_solution")

    def setup(st):
        s = J.system(st, False)
        v = T.obj(J.ex, st, 24, "vector")
        J.data = T.obj(J.ex, st, 1 << 40, "data")
        st.ghost["x"], st.ghost["x_size"], st.ghost["x_data"] = Ptr(v, 0), J.n, Ptr(J.data, 0)
        return [s, Ptr(v, 0)]

    def post(p):
        r = rec(p, "copy")
        yield "the values are copied once", len(r) == 1 and not rec(p, "set", "solve")
        if len(r) == 1:
            _, content, off, dst, n = r[0]
            yield "they are those of the solution", content == "solution"
            yield "from the first", off == 0
            yield "to the first of the vector of the caller", isinstance(dst, Ptr) and dst.obj is J.data and dst.off == 0
            yield "all of them", n == J.n
        yield "every array is given back", not p.ghost.get("out")
        made = [v for k, v in p.ghost.items() if isinstance(k, tuple) and k[0] == "ps" and k[1] not in {h.obj.id for h in (J.A, J.b, J.x)}]
        yield "what is created is destroyed", all(not d["alive"] for d in made)
    J.run("system_solution", setup, post)


def job_krylov_create(ctx, T):
    J = Job(ctx, T, "PETScKrylovSolver::create")

    def setup(st):
        k = J.krylov(st)
        st.cells(J.kry, True).pop(T.lay[7])
        return [k]

    def post(p):
        k = J.cell(p, J.kry, T.lay[7])
        ok = isinstance(k, Ptr) and k.obj is not None
        yield "a solver is created", ok
        if ok:
            d = T.g(p, k, "ksp")
            yield "on all processes", d["comm"] == "world" and d["alive"]
            yield "for the matrix of the system", d.get("A") == J.A and d.get("P") == J.A
    # the prefix of the options is a string
    J.run("krylov_create", setup, post)


def job_krylov_solve(ctx, T):
    J = Job(ctx, T, "PETScKrylovSolver::solve")

    def setup(st):
        k = J.krylov(st)
        J.may = (J.A, J.b, J.x)
        return [k]

    def post(p):
        r = rec(p, "solve")
        yield "the system is solved once", len(r) == 1
        if len(r) == 1:
            yield "with the matrix and the right-hand side of the system, into its solution", r[0][1:] == (J.A, J.A, J.b, J.x)
        yield "no value is added", not rec(p, "set", "destroyed")
        yield "the solution is that of the solver", T.g(p, J.x)["content"] == ("solution", J.A.obj.id, J.b.obj.id)
    J.run("krylov_solve", setup, post)


def job_krylov_destroy(ctx, T):
    J = Job(ctx, T, "PETScKrylovSolver::destroy")

    def setup(st):
        k = J.krylov(st)
        J.may = (J.A, J.b, J.x, J.k)
        return [k]
    J.run("krylov_destroy", setup, lambda p: [(f"the {nm} is destroyed", not T.g(p, h)["alive"]) for h, nm in ((J.A, "matrix"), (J.b, "right-hand side"), (J.x, "solution"), (J.k, "solver"))])


def chain(J, st):
    T, L = J.T, J.L
    J.d, J.m, J.l = T.obj(J.ex, st, 8, "discrete system"), T.obj(J.ex, st, L[8], "solver"), T.obj(J.ex, st, 8, "linear system")
    st.ghost["linear"] = Ptr(J.l, 0)
    st.cells(J.m, True)[L[9]] = (8, Ptr(J.d, 0))
    return Ptr(J.m, 0)


def job_chain(ctx, T):
    J = Job(ctx, T, "LinearSolver::solve")
    J.run("chain_solve", lambda st: [chain(J, st)], lambda p: [
        ("the system is assembled, then solved, then the solution is read", rec(p) == [("ds_assemble", Ptr(J.d, 0)), ("ms_solve", Ptr(J.m, T.lay[10])), ("ds_read", Ptr(J.d, 0))])])
    K = Job(ctx, T, "LinearSolver::LinearSolver")

    def setup(st):
        c = chain(K, st)
        st.cells(K.m, True).pop(T.lay[9])
        return [Ptr(K.d, 0), c]
    K.run("chain_construct", setup, lambda p: [
        ("the solver is created on the linear system of the discrete system", rec(p) == [("ms_construct", Ptr(K.m, T.lay[10]), Ptr(K.l, 0)), ("ms_create", Ptr(K.m, T.lay[10]))]),
        ("the discrete system is that of the caller", K.cell(p, K.m, T.lay[9]) == Ptr(K.d, 0))])
    D = Job(ctx, T, "LinearSolver::destroy")
    D.run("chain_destroy", lambda st: [chain(D, st)], lambda p: [("the solver is destroyed", rec(p) == [("ms_destroy", Ptr(D.m, T.lay[10]))])])
    O = Job(ctx, T, "LinearSolver::set_options")

    def opts(st):
        c = chain(O, st)
        O.s = T.obj(O.ex, st, 32, "options")
        return [c, Ptr(O.s, 0)]
    O.run("chain_options", opts, lambda p: [("the options go to the solver", rec(p) == [("ms_options", Ptr(O.m, T.lay[10]), Ptr(O.s, 0))])])


def job_construct(ctx, T):
    L = T.lay
    J = Job(ctx, T, "PETScLinearSystem::PETScLinearSystem")

    def setup(st):
        o = J.sys = T.obj(J.ex, st, L[0], "system")
        return [Ptr(T.obj(J.ex, st, 32, "label"), 0), Ptr(o, 0)]
    J.run("system_construct", setup, lambda p: [("no equations", i_(J.cell(p, J.sys, L[4])) == 0 if J.cell(p, J.sys, L[4]) is not None else False), ("nothing is done", not rec(p))])
    K = Job(ctx, T, "PETScKrylovSolver::PETScKrylovSolver")

    def setup2(st):
        s = K.system(st)
        o = K.kry = T.obj(K.ex, st, L[5], "krylov")
        return [s, Ptr(o, 0)]
    K.run("krylov_construct", setup2, lambda p: [("the linear system is that of the caller", K.cell(p, K.kry, L[6]) == Ptr(K.sys, 0)), ("nothing is done", not rec(p))])
