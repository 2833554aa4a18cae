"""Contracts on mito::mesh (Mesh, Boundary, Filter) and on the construction of geometric simplices.

Cells and simplices are objects at addresses, their fields arrays indexed by the address (as in topo_spec).
The orientation map of a mesh: has(f), count(f, 0 | 1): how many cells of the mesh have a facet with footprint f and
orientation +1 | -1.  Representation invariant, for every footprint f:
  count(f, k) >= 0,  has(f) <=> count(f, 0) + count(f, 1) > 0
  count(f, k) is the number of facets with that footprint and orientation, over the cells of the mesh
Every function is executed from an arbitrary map; the obligations give the change of count for every f."""
import re
import z3
from engine import frontend as F, ir, execu, fold
from engine.execu import Ex, State, Ptr, NULL, UNDEF, Unsupported, PathLimit
from engine.names import parse, base
from .pool_spec import ir_ptr, ir_int, Prover, discharge
from . import pool_spec as PS, topo_spec as TS
from .topo_spec import I_, B_, TEx

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
COUNT = 1 << 44           # field offset of the counters: the counters of footprint f are at f + COUNT
CASES = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


def simplex_order(d):
    m = re.search(r"mito::topology::(?:Oriented)?Simplex<(\d)>", d)
    return int(m.group(1))


class Meshes(TS.Topo):
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("mesh.cc"), "O0raw"))
        e = Ex(self.mod)
        self.lay = {}
        for N, D in CASES:
            L = []
            for i in range(11):
                p = e.run(self.mod.funcs[f"mesh_layout_{N}_{D}"], [i])
                if len(p) != 1 or not isinstance(p[0].retval, int):
                    raise Unsupported("layout of the classes")
                L.append(p[0].retval)
            self.lay[N, D] = L
        self.o_fp, self.o_or = self.lay[1, 1][6], self.lay[1, 1][7]
        if any(L[6] != self.o_fp or L[8] != self.o_fp or L[7] != self.o_or or L[9] != 16 for L in self.lay.values()):
            raise Unsupported("layout of the classes")

    def ex(self, refs=False, contracts=()):
        ex = TS.Topo.ex(self, refs, contracts)
        self.loops = fold.Fold(ex, self.element)
        pats = ex.patterns
        ex.patterns = []
        self.loops.install(fold.SEGVEC)
        ex.patterns += pats
        return ex

    def state(self, ex):
        st = State()
        st.heap = {}
        st.ghost["has"] = z3.Array("has", I_, B_)
        st.ghost["rec"] = ()
        st.ghost["marks"] = {}
        st.ghost["meshes"] = {}
        return st

    # fields
    def FP(self, s):
        return z3.Select(z3.Array(f"F{self.o_fp}_8", I_, I_), s)

    def OR(self, s):
        return z3.Select(z3.Array(f"F{self.o_or}_4", I_, I_), s)

    def cnt(self, ex, st, k, f):
        return z3.Select(ex.field(st, COUNT + 4 * k, 4), f)

    def facet(self, N, s, i):
        return z3.Function(f"facet{N}_{i}", I_, I_)(s)

    def vertex(self, N, s, i):
        return z3.Function(f"vertex{N}_{i}", I_, I_)(s)

    def facets(self, st, N, s):
        """the facets of the oriented simplex s (contract of composition, verified: T03)"""
        out = []
        for i in range(N + 1):
            f = self.facet(N, s, i)
            self.nonnull(st, f, self.FP(f))
            st.pc += [Or(self.OR(f) == 1, self.OR(f) == -1), f < 1 << 40, self.FP(f) < 1 << 40]
            out.append(f)
        return out

    # ------------------------------------------------------------ handlers
    def dispatch(self, ex, st, a, I):
        fn = ex.cur_fn
        k = ex.hcache.get(("parse", fn.name))
        if k is None:
            d = ex.dname(fn)
            k = (d,) + (parse(d) or ("", "", ""))
            ex.hcache[("parse", fn.name)] = k
        d, cls, m, args = k
        b = base(cls)
        for pred, h in ex.contracts.items():
            if re.search(pred, d):
                r = h(ex, st, d, a, I)
                if r is not NotImplemented:
                    return r
        if b == "mito::utilities::SharedPointer":
            return self.handle(ex, st, cls, m, args, a)
        if b == "mito::topology::OrientedSimplex" and m == "composition":
            N = simplex_order(cls)
            s = self.num(ex, a[1])
            for i, f in enumerate(self.facets(st, N, s)):
                ex.store(st, ex.padd(a[0], 8 * i), f, ir_ptr())
            return None
        if b == "mito::geometry::GeometricSimplex" and m == "~GeometricSimplex":
            return None
        if b == "mito::topology::OrientedSimplex" and m == "vertices" and len(a) == 2:
            N = simplex_order(cls)
            s = self.num(ex, a[1])
            for i in range(N + 1):
                ex.store(st, ex.padd(a[0], 8 * i), self.vertex(N, s, i), ir_ptr())
            return None
        if d == "mito::topology::topology()":
            return Ptr(ex.objbyid.setdefault("topology", ex.new_obj(st, "topology", 64, "ghost")), 0)
        if b == "mito::topology::Topology" and m == "simplex" or re.search(r" mito::topology::Topology::simplex<\d>\(std::array<mito::utilities::SharedPointer<mito::topology::Simplex<0> const>", d):
            N = int(re.search(r"Topology::simplex<(\d)>", d).group(1))
            v = [z3.simplify(x) for x in self.elems(ex, st, a[2], N + 1, True)]
            r = made(N, v)
            self.nonnull(st, r)
            st.pc.append(r < 1 << 40)
            ex.store(st, a[0], r, ir_ptr())
            return None
        if d.startswith("int mito::math::permutation_sign<"):
            return self.permutation_sign(ex, st, d, a)
        if re.match(r"std::unordered_map<unsigned long, std::array<int, 2ul>,", cls):
            return self.counters(ex, st, d, m, args, a)
        if b in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator") and "std::array<int, 2ul>" in cls and m in ("operator->", "operator*"):
            return self.iterator(ex, st, d, cls, m, args, a)
        if re.match(r"(bool )?std::__detail::operator(==|!=)(<.*>)?\(std::__detail::_Node_iterator_base<std::pair<unsigned long const, std::array<int, 2ul>>", d):
            return self.iterator(ex, st, d, cls, m, args, a)
        if re.match(r"bool std::operator(==|!=)<int, 2ul>\(std::array", d):
            x = [ex.load(st, ex.padd(p, 4 * i), ir_int(32)) for p in a[:2] for i in (0, 1)]
            x = [z3.IntVal(execu.sgn(v, 32)) if isinstance(v, int) else v for v in x]
            r = ex.decide(st, And(x[0] == x[2], x[1] == x[3]), None)
            return int(r != ("operator!=" in d))
        if b in ("std::unordered_set", "std::set"):
            return self.collection(ex, st, cls, m, args, a)
        if b == "mito::utilities::SegmentedVector":
            return self.vector(ex, st, cls, m, args, a)
        if b == "mito::mesh::Mesh" and m in ("Mesh", "~Mesh") and ex.cellops:
            ms = dict(st.ghost["meshes"])
            if m == "Mesh" and len(a) == 1:
                ms[(a[0].obj.id, a[0].off)] = True
            elif m == "Mesh":
                if not ms.pop((a[1].obj.id, a[1].off), False):
                    raise Unsupported("move of a mesh")
                ms[(a[0].obj.id, a[0].off)] = True
            st.ghost["meshes"] = ms
            return None
        return NotImplemented

    def record(self, st, *x):
        st.ghost["rec"] = st.ghost["rec"] + (x,)

    def counters(self, ex, st, d, m, args, a):
        if m in ("unordered_map", "~unordered_map"):
            raise Unsupported("construction of the orientation map")
        if a[0] != st.ghost["map"]:
            raise Unsupported("another orientation map")
        if m == "end":
            return NULL
        if m == "erase" and "iterator" in args:
            x = a[1]
            if not z3.is_expr(x):
                raise Unsupported("erase at an iterator")
            f = z3.simplify(x - (COUNT - 8))
            st.obls.append(("an element of the map is erased", z3.Select(st.ghost["has"], f)))
            st.ghost["has"] = z3.Store(st.ghost["has"], f, z3.BoolVal(False))
            return z3.FreshConst(I_, "next")
        if m in ("try_emplace", "emplace", "insert", "insert_or_assign"):
            f = self.elems(ex, st, a[1], 1)[0]
            two = re.match(r"std::pair<.*iterator.*, bool> ", d)
            if m != "try_emplace" or len(a) != 2:
                raise Unsupported(f"unordered_map::{m}")
            present = ex.decide(st, z3.Select(st.ghost["has"], f), None)
            if not present:
                self.zero(ex, st, f)
            return [f + (COUNT - 8), int(not present)]
        if m in ("operator[]", "at", "count", "contains", "erase", "find"):
            f = self.elems(ex, st, a[1], 1)[0]
            present = ex.decide(st, z3.Select(st.ghost["has"], f), None)
            if m == "find":
                if present:
                    # the key of the element
                    st.pc.append(z3.Select(ex.field(st, COUNT - 8, 8), f) == f)
                return f + (COUNT - 8) if present else NULL
            if m in ("count", "contains"):
                return int(present)
            if m == "erase":
                st.ghost["has"] = z3.Store(st.ghost["has"], f, z3.BoolVal(False))
                return int(present)
            if not present and m == "at":
                st.status, st.retval = "throw", "unordered_map::at"
                return None
            if not present:
                self.zero(ex, st, f)
            return f + COUNT
        raise Unsupported(f"unordered_map::{m}")

    def zero(self, ex, st, f):
        for k in (0, 1):
            ex.flat_store(st, f + COUNT + 4 * k, 0, ir_int(32))
        st.ghost["has"] = z3.Store(st.ghost["has"], f, z3.BoolVal(True))

    def iterator(self, ex, st, d, cls, m, args, a):
        """iterators of the orientation map: the address of the element, null at the end"""
        if m in ("operator->", "operator*"):
            v = ex.load(st, a[0], ir_ptr())
            if isinstance(v, Ptr) and v.obj is None:
                st.obls.append(("the end of the map is not dereferenced", z3.BoolVal(False)))
            return v
        x = []
        for p in a[:2]:
            v = ex.load(st, p, ir_ptr())
            x.append(ex.to_int(v) if isinstance(v, Ptr) else v)
        x = [z3.IntVal(v) if isinstance(v, int) else v for v in x]
        if z3.is_int_value(x[0]) != z3.is_int_value(x[1]):
            same = False                                    # an element is not the end
        else:
            same = ex.decide(st, x[0] == x[1], None)
        return int(same != ("operator!=" in d))

    def collection(self, ex, st, cls, m, args, a):
        """a set of handles, arbitrary at the head of the loop: membership is decided once per key"""
        if "StdSharedPointer" in cls.split(",")[0]:
            return self.nodeset(ex, st, cls, m, args, a)
        if not re.match(r"std::(unordered_)?set<(mito::utilities::SharedPointer<|unsigned long,)", cls):
            raise Unsupported(cls)
        g = ("coll", a[0].obj.id, a[0].off)
        if m in ("unordered_set", "set"):
            if len(a) > 1 and not isinstance(a[1], int):
                raise Unsupported("construction of a set from a range")
            st.ghost[g] = ()
            self.record(st, "set", g)
            return None
        if m in ("~unordered_set", "~set"):
            return None
        if g not in st.ghost:
            raise Unsupported("set out of sight")
        if m in ("insert", "emplace", "contains", "count"):
            x = z3.simplify(self.num(ex, ex.load(st, a[1], ir_ptr())))
            known = dict((k.get_id(), v) for k, v in st.ghost[g])
            if x.get_id() in known:
                present = known[x.get_id()]
            else:
                present = ex.decide(st, z3.Bool(f"seen_{x.get_id()}"), None)
                st.ghost[g] = st.ghost[g] + ((x, present),)
            if m in ("contains", "count"):
                self.record(st, "query", g, x, present)
                return int(present)
            self.record(st, "query", g, x, present)
            if not present:
                self.record(st, "add", g, x)
                st.ghost[g] = tuple(e for e in st.ghost[g] if e[0] is not x) + ((x, True),)
            if m == "insert" and len(a) > 2:
                raise Unsupported("insertion of a range")
            return [Ptr(ex.new_obj(st, "node", 16, "ghost"), 0), int(not present)]
        raise Unsupported(f"set::{m}")

    def nodeset(self, ex, st, cls, m, args, a):
        """the boundary of a mesh of segments: a set of nodes"""
        if m in ("unordered_set", "~unordered_set"):
            ms = dict(st.ghost["meshes"])
            if m[0] == "u":
                if len(a) == 2 and isinstance(a[1], Ptr) and "unordered_set" in args:
                    if not ms.pop((a[1].obj.id, a[1].off), False):
                        raise Unsupported("copy of a set")
                ms[(a[0].obj.id, a[0].off)] = True
            st.ghost["meshes"] = ms
            return None
        if m in ("insert", "emplace"):
            c = st.cells(a[1].obj).get(a[1].off)
            if c is None or not isinstance(c[1], Ptr) or c[1].obj.id not in st.ghost["marks"]:
                raise Unsupported("insertion of an unknown node")
            self.record(st, "insert", (a[0].obj.id, a[0].off), st.ghost["marks"][c[1].obj.id])
            return [Ptr(ex.new_obj(st, "node", 16, "ghost"), 0), 1]
        raise Unsupported(f"unordered_set::{m}")

    def vector(self, ex, st, cls, m, args, a):
        if a[0] != st.ghost.get("cells"):
            raise Unsupported("another collection of cells")
        if m == "emplace":
            c = z3.Int("new_cell")
            self.nonnull(st, c)
            st.pc.append(c < 1 << 40)
            self.record(st, "emplace", parse_args(args), a[1:], c)
            o = self.lay[ex.case]
            if "GeometricSimplex<" in args and not args.startswith("(std::array"):
                # a copy of the cell given
                ex.flat_store(st, c + o[4], ex.load(st, ex.padd(a[1], o[4]), ir_ptr()), ir_ptr())
            return c
        if m == "erase":
            r = int(ex.decide(st, z3.Bool("was_valid"), None))
            self.record(st, "erase", a[1])
            return r
        if m == "size":
            return z3.Int("size")
        raise Unsupported(f"SegmentedVector::{m}")

    # ------------------------------------------------------------ loops over cells
    def element(self, ex, st, container, lp):
        if container != st.ghost["cells"]:
            raise Unsupported("iteration over another container")
        c = z3.Int("cell")
        self.nonnull(st, c)
        return c


def made(N, v):
    """the simplex that the topology returns for these vertices (verified: T01, T03)"""
    return z3.Function(f"simplex{N}", *[I_] * (N + 2))(*v)


def parse_args(args):
    return "nodes" if args.startswith("(std::array") else "cell"


class Job:
    def __init__(self, ctx, T, title, case):
        self.ctx, self.T, self.title, self.case = ctx, T, title, case

    def run(self, fname, setup, post, contracts=(), cellops=False):
        """post(ex, path, kind): kind is ret | iteration"""
        ctx, T = self.ctx, self.T
        ex = T.ex(False, contracts)
        ex.case, ex.cellops = self.case, cellops
        st = T.state(ex)
        pv = Prover(ctx, ex)
        try:
            args = setup(ex, st)
            if pv.valid(st, z3.BoolVal(False), 3000):
                ctx.failed(f"{self.title}: precondition is satisfiable", "the precondition is contradictory", where=self.title)
                return
            ctx.vacuity_ok()
            self.heap0, self.has0 = dict(st.heap), st.ghost["has"]
            paths = ex.run(T.mod.funcs[fname], args, st)
            for p in paths:
                p.kind = p.status
                if p.status == "iteration":
                    if any(k not in self.heap0 or not v.eq(self.heap0[k]) for k, v in p.heap.items()):
                        raise Unsupported("a loop that writes to objects")
                    p.status = "ret"
            kinds = {p.kind for p in paths}
            discharge(ctx, ex, pv, paths, self.title, None, lambda ex, p, A: post(ex, p, p.kind))
            ctx.models |= {ex.dname(T.mod.funcs[n])[:100] for n in ex.contracted}
            return kinds
        except (Unsupported, PathLimit) as e:
            PS.unsupported(ctx, self.title, e)

    # ------------------------------------------------------------ states
    def mesh(self, ex, st):
        T, L = self.T, self.T.lay[self.case]
        m = ex.new_obj(st, "mesh", L[2], "param")
        ex.objbyid[m.id] = m
        st.ghost["cells"], st.ghost["map"] = Ptr(m, L[0]), Ptr(m, L[1])
        return Ptr(m, 0)

    def cell(self, ex, st, name="c"):
        """a cell at an address, and its simplex"""
        T, L = self.T, self.T.lay[self.case]
        c = z3.Int(name)
        s = z3.simplify(z3.Select(z3.Array(f"F{L[4]}_8", I_, I_), c))
        T.nonnull(st, c, s, T.FP(s))
        st.pc += [c < 1 << 40, s < 1 << 40, T.FP(s) < 1 << 40]
        return c, s

    def contribution(self, N, s, f, k):
        """number of facets of s with footprint f and orientation +1 (k = 0) or -1 (k = 1)"""
        T = self.T
        return z3.Sum([If(And(T.FP(T.facet(N, s, i)) == f, T.OR(T.facet(N, s, i)) == (1 - 2 * k)), 1, 0) for i in range(N + 1)])

    def inv(self, ex, st, f):
        a, b = [self.T.cnt(ex, st, k, f) for k in (0, 1)]
        return And(a >= 0, b >= 0, z3.Select(st.ghost["has"], f) == (a + b > 0))

    def out(self, ex, st, n=8):
        o = ex.new_obj(st, "out", n, "param")
        ex.objbyid[o.id] = o
        return o


def counts(J, ex, p, N, s, sign):
    """the counters change by the facets of s, for every footprint"""
    f = z3.Int("f_any")
    for k in (0, 1):
        old = z3.Select(J.heap0.get((COUNT + 4 * k, 4), z3.Array(f"F{COUNT + 4 * k}_4", I_, I_)), f)
        h = z3.Select(J.has0, f)
        new = J.T.cnt(ex, p, k, f)
        hn = z3.Select(p.ghost["has"], f)
        yield f"the count of every facet with orientation {1 - 2 * k} " + ("grows by its occurrences in the cell" if sign > 0 else "decreases by its occurrences in the cell" if sign < 0 else "does not change"), \
            If(hn, new, 0) == If(h, old, 0) + sign * J.contribution(N, s, f, k)
    yield "exactly the facets with a count are in the map", J.inv2(ex, p, f)


def others(p, J):
    """nothing but the counters is written"""
    for (off, size), a in p.heap.items():
        if off < COUNT:
            yield "no other object changes", z3.BoolVal((off, size) in J.heap0 and a.eq(J.heap0[(off, size)]))


def inv_all(J, ex, st, N, s):
    """the invariant of the map, at the footprints that matter: those of the facets and an arbitrary one"""
    T = J.T
    fs = [T.FP(x) for x in T.facets(st, N, s)] + [z3.Int("f_any")]

    def ok(ex, p, f):
        a, b = [If(z3.Select(p.ghost["has"], f), T.cnt(ex, p, k, f), 0) for k in (0, 1)]
        return And(a >= 0, b >= 0, z3.Select(p.ghost["has"], f) == (a + b > 0))
    J.inv2 = ok
    st.pc += [ok(ex, st, f) for f in fs]
    return fs


def job_insert(ctx, T, case, how):
    N, D = case
    J = Job(ctx, T, f"Mesh<{N}-simplices in {D}D>::insert({how})", case)

    def setup(ex, st):
        m = J.mesh(ex, st)
        o = J.out(ex, st)
        if how == "cell":
            c, J.s = J.cell(ex, st)
            J.c = c
        else:
            J.c = z3.Int("nodes")
            st.pc += [J.c > 0, J.c < 1 << 40]
            _, J.s = J.cell(ex, st, "new_cell")
        inv_all(J, ex, st, N, J.s)
        J.o = o
        return [m, J.c, Ptr(o, 0)]

    def post(ex, p, kind):
        rec = [r for r in p.ghost["rec"] if r[0] in ("emplace", "erase")]
        one = len(rec) == 1 and rec[0][0] == "emplace" and rec[0][1] == how and z3.is_expr(rec[0][2][0]) and z3.eq(z3.simplify(rec[0][2][0]), J.c)
        yield "one cell is added, built from the argument", z3.BoolVal(one)
        yield "the cell added is returned", T.outv(ex, p, J.o) == z3.Int("new_cell")
        yield from counts(J, ex, p, N, J.s, 1)
        for (off, size), a in p.heap.items():
            if off < COUNT and (off, size) not in J.heap0:
                x = z3.Int("x_any")
                yield "no other object changes", Implies(x != z3.Int("new_cell"), z3.Select(a, x) == z3.Select(z3.Array(f"F{off}_{size}", I_, I_), x))
    J.run(f"insert_{how}_{N}_{D}" if how == "cell" else f"insert_nodes_{N}_{D}", setup, post)


def job_erase(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"Mesh<{N}-simplices in {D}D>::erase(cell)", case)

    def setup(ex, st):
        m = J.mesh(ex, st)
        J.c, J.s = J.cell(ex, st)
        fs = inv_all(J, ex, st, N, J.s)
        # a valid cell is a cell of the mesh: its facets are counted
        for f in fs:
            st.pc += [Implies(z3.Bool("was_valid"), And(Implies(J.contribution(N, J.s, f, k) > 0, z3.Select(st.ghost["has"], f)),
                                                        T.cnt(ex, st, k, f) >= J.contribution(N, J.s, f, k))) for k in (0, 1)]
        return [m, J.c]

    def post(ex, p, kind):
        rec = [r for r in p.ghost["rec"] if r[0] in ("emplace", "erase")]
        yield "the cell, and no other, is erased from the collection", z3.BoolVal(len(rec) == 1 and rec[0][0] == "erase" and z3.eq(z3.simplify(T.num(ex, rec[0][1])), J.c))
        w = z3.Bool("was_valid")
        for n, g in counts(J, ex, p, N, J.s, -1):
            yield n + " (a cell of the mesh)", Implies(w, g)
        for n, g in counts(J, ex, p, N, J.s, 0):
            yield n + " (a cell erased before)", Implies(Not(w), g)
        yield from others(p, J)
    J.run(f"erase_{N}_{D}", setup, post)


def job_on_boundary(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"Mesh<{N}-simplices in {D}D>::isOnBoundary(facet)", case)

    def setup(ex, st):
        m = J.mesh(ex, st)
        f = J.f = z3.Int("facet")
        u = J.u = T.FP(f)
        T.nonnull(st, f, u)
        st.pc += [Or(T.OR(f) == 1, T.OR(f) == -1), f < 1 << 40, u < 1 << 40]
        a, b = [T.cnt(ex, st, k, u) for k in (0, 1)]
        # a facet of a cell of the mesh
        st.pc += [a >= 0, b >= 0, z3.Select(st.ghost["has"], u) == (a + b > 0), If(T.OR(f) == 1, a, b) > 0]
        h = T.handles(ex, st, [f], "facet")
        return [m, Ptr(h, 0)]

    def post(ex, p, kind):
        r = p.retval
        r = (r if z3.is_bool(r) else r != 0) if z3.is_expr(r) else z3.BoolVal(bool(r)) if isinstance(r, int) else None
        if r is None:
            raise Unsupported("result of isOnBoundary")
        opp = If(T.OR(J.f) == 1, T.cnt(ex, p, 1, J.u), T.cnt(ex, p, 0, J.u))
        yield "a facet is on the boundary iff no cell has its flipped copy", r == (opp == 0)
        yield "nothing changes", z3.BoolVal(all(k in J.heap0 and v.eq(J.heap0[k]) for k, v in p.heap.items()) and p.ghost["has"].eq(J.has0))
    J.run(f"on_boundary_{N}_{D}", setup, post)


def job_duplicates(ctx, T, case, which):
    N, D = case
    J = Job(ctx, T, f"Mesh<{N}-simplices in {D}D>::erase_{which}_duplicates()", case)

    def setup(ex, st):
        m = J.mesh(ex, st)
        J.c, J.s = J.cell(ex, st, "cell")
        return [m]

    def erase(ex, st, d, a, I):
        if a[0].obj is not st.ghost["cells"].obj:
            raise Unsupported("erasure from another mesh")
        T.record(st, "erase", a[1])
        return None

    def post(ex, p, kind):
        rec = p.ghost["rec"]
        key = z3.simplify(T.FP(J.s) if which == "topological" else J.s)
        er = [r[1] for r in rec if r[0] == "erase"]
        sets = [r for r in rec if r[0] == "set"]
        if kind == "iteration":
            q = [r for r in rec if r[0] == "query"]
            add = [r for r in rec if r[0] == "add"]
            okq = len({r[1] for r in q}) == 1 and all(r[2].eq(key) for r in q)
            yield "cells are recognised by their " + ("footprint" if which == "topological" else "simplex"), z3.BoolVal(bool(okq))
            if not okq:
                return
            seen = q[0][3]
            if seen:
                yield "a cell like one already met is erased, and no other", z3.BoolVal(len(er) == 1 and z3.eq(z3.simplify(T.num(ex, er[0])), J.c) and not add)
            else:
                yield "a cell met for the first time is kept and remembered", z3.BoolVal(not er and len(add) == 1 and add[0][2].eq(key))
        else:
            yield "nothing is erased outside the visit of the cells, no cell is met at the start", z3.BoolVal(not er and not [r for r in rec if r[0] == "add"] and len(sets) == 1)
    kinds = J.run(f"{which}_{N}_{D}", setup, post, contracts={r"Mesh<.*>::erase\(mito::geometry": erase})
    if kinds is not None and "iteration" not in kinds:
        ctx.failed(f"{J.title}: every cell is visited", "no loop over the cells", where=J.title)


def geometric(T):
    """contract on geometric_simplex (verified: job_geometric)"""
    def h(ex, st, d, a, I):
        if "::'lambda" in d:
            return NotImplemented
        sret, hs, nodes = a[:3]
        s = z3.simplify(T.num(ex, ex.load(st, hs, ir_ptr())))
        mk = dict(st.ghost["marks"])
        if re.search(r"geometric_simplex<\d, 0,", d):
            o = ex.new_obj(st, "a node", 64, "ghost")
            mk[o.id] = (s, nodes)
            ex.store(st, sret, Ptr(o, 0), ir_ptr())
            ex.store(st, ex.padd(sret, 8), NULL, ir_ptr())
        else:
            mk[(sret.obj.id, sret.off)] = (s, nodes)
        st.ghost["marks"] = mk
        return None
    return h


def insert_contract(T):
    def h(ex, st, d, a, I):
        k = (a[1].obj.id, a[1].off) if isinstance(a[1], Ptr) else None
        if k not in st.ghost["marks"]:
            raise Unsupported("insertion of an unknown cell")
        T.record(st, "insert", (a[0].obj.id, a[0].off), st.ghost["marks"][k])
        return Ptr(ex.new_obj(st, "inserted", 64, "ghost"), 0)
    return h


def onb(f):
    return z3.Function("on_boundary", I_, B_)(f)


def job_boundary(ctx, T, case, size=False):
    N, D = case
    J = Job(ctx, T, f"boundary{'_size' if size else ''}(mesh of {N}-simplices in {D}D)", case)

    def setup(ex, st):
        m = J.mesh(ex, st)
        J.m = m
        J.c, J.s = J.cell(ex, st, "cell")
        J.nodes = J.c + T.lay[case][3]
        if size:
            return [m]
        J.o = J.out(ex, st, 512)
        return [m, Ptr(J.o, 0)]

    def is_on(ex, st, d, a, I):
        if a[0] != J.m:
            raise Unsupported("boundary of another mesh")
        f = z3.simplify(T.num(ex, ex.load(st, a[1], ir_ptr())))
        return int(ex.decide(st, onb(f), None))

    def post(ex, p, kind):
        fs = [z3.simplify(T.facet(N, J.s, i)) for i in range(N + 1)]
        ins = [r for r in p.ghost["rec"] if r[0] == "insert"]
        if kind == "iteration":
            lp = p.ghost["cut"][-1]
            if size:
                ks = [k for k in lp.dirty if isinstance(lp.before.get(k), z3.ExprRef)]
                step = z3.Sum([If(onb(f), 1, 0) for f in fs])
                cs = [k for k in J.acc if k in ks]
                yield "the boundary facets of the cell are counted, once each", And(z3.BoolVal(len(cs) == 1), *[
                    p.mem[k[0]][k[1]][1] == lp.before[k] + step for k in cs])
                return
            ok = all(z3.eq(z3.simplify(T.num(ex, r[2][1])), z3.simplify(J.nodes)) for r in ins)
            yield "the facets are bound to the nodes of the cell", z3.BoolVal(ok)
            yield "facets are inserted in the boundary that is returned", z3.BoolVal(len({r[1] for r in ins}) <= 1 and all(r[1] == J.target for r in ins))
            for i, f in enumerate(fs):
                n = sum(1 for r in ins if r[2][0].eq(f))
                yield f"facet {i} of a cell is inserted, once, iff it is on the boundary", onb(f) == z3.BoolVal(n == 1) if n < 2 else z3.BoolVal(False)
            yield "nothing else is inserted", z3.BoolVal(all(any(r[2][0].eq(f) for f in fs) for r in ins))
        elif size:
            lps = [x for x in p.ghost.get("loops", ())]
            r = p.retval
            if lps and lps[-1][1] == "empty":
                yield "the boundary of an empty mesh is empty", (z3.IntVal(execu.sgn(r, 32)) if isinstance(r, int) else r) == 0
            else:
                yield "the count is returned", z3.BoolVal(z3.is_expr(r) and any(z3.is_expr(v) and v.eq(r) for k, v in (lps[-1][2].items() if lps else ()) if k in J.acc))
        else:
            yield "nothing is inserted outside the visit of the cells", z3.BoolVal(not ins)
            yield "the boundary is returned", z3.BoolVal(list(p.ghost["meshes"]) == [(J.o.id, 0)])

    # where the boundary is built: found on the first run; the accumulators of boundary_size: dirty cells read in the body
    class Post:
        def __call__(self, ex, p, kind):
            return post(ex, p, kind)
    J.target = None
    run_boundary(ctx, T, J, f"boundary{'_size' if size else ''}_{N}_{D}", setup, post, {
        r"Mesh<.*>::isOnBoundary\(": is_on, r"mito::geometry::geometric_simplex<": geometric(T), r"mito::mesh::Mesh<.*>::insert\(mito::geometry": insert_contract(T)}, size)


def run_boundary(ctx, T, J, fname, setup, post, contracts, size):
    def pre(ex, p, kind):
        raise AssertionError
    # the accumulator is a 4-byte integer: arbitrary at the head of the loop
    T.havoc = {}

    def havoc(ex, st, k, old, n):
        if size and old is not None and n == 4 and (isinstance(old[1], int) or z3.is_expr(old[1])):
            v = z3.Int(f"acc_{k[0]}_{k[1]}")
            J.acc.add(k)
            return v
        return UNDEF
    J.acc = set()
    orig = T.ex

    def ex_(refs=False, contracts=()):
        ex = orig(refs, contracts)
        T.loops.havoc = havoc
        return ex
    T.ex = ex_
    try:
        def setup_(ex, st):
            a = setup(ex, st)
            if not size:
                J.target = None
            return a

        def post_(ex, p, kind):
            if kind == "iteration" and not size and J.target is None:
                ts = list(p.ghost["meshes"])
                J.target = ts[0] if len(ts) == 1 else None
            yield from post(ex, p, kind)
        kinds = J.run(fname, setup_, post_, contracts=contracts, cellops=True)
    finally:
        T.ex = orig
    if kinds is not None and "iteration" not in kinds:
        ctx.failed(f"{J.title}: every cell is visited", "no loop over the cells", where=J.title)


def job_filter(ctx, T, N, I, D):
    J = Job(ctx, T, f"filter<{I}>(mesh of {N}-simplices in {D}D)", (N, D))

    def setup(ex, st):
        m = J.mesh(ex, st)
        J.c, J.s = J.cell(ex, st, "cell")
        J.nodes = J.c + T.lay[(N, D)][3]
        J.o = J.out(ex, st, 512)
        return [m, Ptr(J.o, 0)]

    def subs(n, s):
        if n == I:
            return [s]
        return [x for i in range(n + 1) for x in subs(n - 1, z3.simplify(T.facet(n, s, i)))]

    def post(ex, p, kind):
        ins = [r for r in p.ghost["rec"] if r[0] == "insert"]
        if kind == "iteration":
            want = subs(N, z3.simplify(J.s))
            yield "the faces are bound to the nodes of the cell", z3.BoolVal(all(z3.eq(z3.simplify(T.num(ex, r[2][1])), z3.simplify(J.nodes)) for r in ins))
            yield "faces are inserted in the mesh that is returned", z3.BoolVal(len({r[1] for r in ins}) <= 1 and list(p.ghost["meshes"]) == [r[1] for r in ins][:1])
            yield f"the faces of order {I} of the cell, and nothing else, are inserted", z3.BoolVal(
                {x.get_id() for x in want} == {r[2][0].get_id() for r in ins})
        else:
            yield "nothing is inserted outside the visit of the cells", z3.BoolVal(not ins)
            yield "the mesh of faces is returned", z3.BoolVal(list(p.ghost["meshes"]) == [(J.o.id, 0)])
    J.acc = set()
    kinds = J.run(f"filter_{N}_{I}_{D}", setup, post, contracts={r"mito::geometry::geometric_simplex<": geometric(T), r"mito::mesh::Mesh<.*>::insert\(mito::geometry": insert_contract(T)}, cellops=True)
    if kinds is not None and "iteration" not in kinds:
        ctx.failed(f"{J.title}: every cell is visited", "no loop over the cells", where=J.title)


# -------------------------------------------------------------------- geometric simplices
def nodes_arg(J, ex, st, n, name="nodes"):
    """an array of nodes (std::shared_ptr: address and control block), and their vertices"""
    T = J.T
    o = ex.new_obj(st, name, 16 * n, "param")
    ex.objbyid[o.id] = o
    J.nodes = [z3.Int(f"node{i}") for i in range(n)]
    for i, x in enumerate(J.nodes):
        st.cells(o, True)[16 * i] = (8, x)
        st.cells(o, True)[16 * i + 8] = (8, NULL)
    off = T.lay[J.case][10]
    J.V = [z3.simplify(z3.Select(z3.Array(f"F{off}_8", I_, I_), x)) for x in J.nodes]
    T.nonnull(st, *J.nodes, *J.V)
    st.pc += [x < 1 << 40 for x in J.nodes + J.V]
    return o


def field(p, o, off):
    c = p.cells(o).get(off)
    if c is None or c[0] != 8 or not z3.is_expr(c[1]):
        raise Unsupported("field of a cell")
    return c[1]


def known_simplex(J, st, s, name="simplex"):
    """s has distinct vertices, and any even permutation of them gives s"""
    import itertools
    T, N = J.T, J.case[0]
    v = [T.vertex(N, s, i) for i in range(N + 1)]
    T.nonnull(st, *v)
    st.pc += [x < 1 << 40 for x in v] + [z3.Distinct(*v)]
    st.pc += [made(N, [v[i] for i in q]) == s for q in itertools.permutations(range(N + 1)) if TS.parity(q) > 0]
    return v


def job_cell(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"GeometricSimplex<{N}, {D}>(nodes)", case)
    L = T.lay[case]

    def setup(ex, st):
        J.o = J.out(ex, st, L[5])
        o = nodes_arg(J, ex, st, N + 1)
        st.pc.append(z3.Distinct(*J.V))
        return [Ptr(J.o, 0), Ptr(o, 0)]

    def post(ex, p, kind):
        for i in range(N + 1):
            yield f"node {i} of the cell is node {i} given", field(p, J.o, L[3] + 16 * i) == J.nodes[i]
        yield "the simplex is that of the vertices of the nodes, in order", field(p, J.o, L[4]) == made(N, J.V)
    J.run(f"cell_{N}_{D}", setup, post)


def job_bind(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"GeometricSimplex<{N}, {D}>(simplex, nodes)", case)
    L = T.lay[case]

    def setup(ex, st):
        J.o = J.out(ex, st, L[5])
        o = nodes_arg(J, ex, st, N + 1)
        J.s = z3.Int("simplex")
        T.nonnull(st, J.s)
        st.pc.append(J.s < 1 << 40)
        v = known_simplex(J, st, J.s)
        st.pc.append(TS.perm_sign(v, J.V) == 1)
        h = T.handles(ex, st, [J.s], "simplex")
        return [Ptr(J.o, 0), Ptr(h, 0), Ptr(o, 0)]

    def post(ex, p, kind):
        for i in range(N + 1):
            yield f"node {i} of the cell is node {i} given", field(p, J.o, L[3] + 16 * i) == J.nodes[i]
        yield "the simplex is the one given", field(p, J.o, L[4]) == J.s
    J.run(f"bind_{N}_{D}", setup, post)


def job_geometric(ctx, T, case, vector=False):
    """vector: from the nodes of two triangles, in a std::vector"""
    N, D = case
    J = Job(ctx, T, f"geometric_simplex<{D}>(simplex of order {N}, {'vector of ' if vector else ''}nodes)", case)
    L = T.lay[case]

    def setup(ex, st):
        J.o = J.out(ex, st, L[5])
        n = 6 if vector else N + 2
        o = nodes_arg(J, ex, st, n)
        if vector:
            w = ex.new_obj(st, "vector", 24, "param")
            ex.objbyid[w.id] = w
            for i, x in enumerate((0, 16 * n, 16 * n)):
                st.cells(w, True)[8 * i] = (8, Ptr(o, x))
            o = w
        J.s = z3.Int("simplex")
        T.nonnull(st, J.s)
        st.pc.append(J.s < 1 << 40)
        v = J.v = known_simplex(J, st, J.s)
        st.pc += [Or(*[x == y for y in J.V]) for x in v]
        h = T.handles(ex, st, [J.s], "simplex")
        return [Ptr(J.o, 0), Ptr(h, 0), Ptr(o, 0)]

    def post(ex, p, kind):
        n = [field(p, J.o, L[3] + 16 * i) for i in range(N + 1)]
        for i in range(N + 1):
            yield f"node {i} is one of the nodes given", Or(*[n[i] == x for x in J.nodes])
        yield "the cell is on the simplex given", field(p, J.o, L[4]) == J.s
        off = L[10]
        w = [z3.Select(z3.Array(f"F{off}_8", I_, I_), x) for x in n]
        yield "the nodes are those of the vertices of the simplex, in an order with its orientation", TS.perm_sign(w, J.v) == 1
    J.run(f"geometric_{'vector_' if vector else ''}{N}_{D}", setup, post)


def cell_object(J, ex, st, tag):
    """a cell in an object of its own: its nodes, their vertices, its simplex"""
    T, L, (N, D) = J.T, J.T.lay[J.case], J.case
    n = [z3.Int(f"{tag}node{i}") for i in range(N + 1)]
    s = z3.Int(f"{tag}simplex")
    V = [z3.simplify(z3.Select(z3.Array(f"F{L[10]}_8", I_, I_), x)) for x in n]
    T.nonnull(st, s, *n, *V)
    st.pc += [x < 1 << 40 for x in [s] + n + V]

    def put(o, at=0):
        for i, x in enumerate(n):
            st.cells(o, True)[at + L[3] + 16 * i] = (8, x)
            st.cells(o, True)[at + L[3] + 16 * i + 8] = (8, NULL)
        st.cells(o, True)[at + L[4]] = (8, s)
    return n, V, s, put


def node_vertex(J, x):
    return z3.Select(z3.Array(f"F{J.T.lay[J.case][10]}_8", I_, I_), x)


def job_flip(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"geometry::flip(cell of order {N} in {D}D)", case)
    L = T.lay[case]
    J.r = z3.Int("flipped")

    def flipped(ex, st, d, a, I):
        """contract of topology::flip (verified: T03): the simplex of the same vertices with the other orientation"""
        T.record(st, "flip", T.num(ex, ex.load(st, a[1], ir_ptr())))
        ex.store(st, a[0], J.r, ir_ptr())

    def setup(ex, st):
        J.o = J.out(ex, st, L[5])
        n, V, s, put = cell_object(J, ex, st, "")
        i = ex.new_obj(st, "cell", L[5], "param")
        ex.objbyid[i.id] = i
        put(i)
        J.n, J.V, J.s = n, V, s
        T.nonnull(st, J.r)
        st.pc.append(J.r < 1 << 40)
        v = J.v = known_simplex(J, st, J.r)
        # the vertices of the cell, in an order with the orientation of its simplex
        st.pc.append(TS.perm_sign(v, V) == -1)
        return [Ptr(J.o, 0), Ptr(i, 0)]

    def post(ex, p, kind):
        n = [field(p, J.o, L[3] + 16 * i) for i in range(N + 1)]
        calls = [r for r in p.ghost["rec"] if r[0] == "flip"]
        yield "the simplex that is flipped is that of the cell", And(z3.BoolVal(len(calls) > 0), *[r[1] == J.s for r in calls])
        for i in range(N + 1):
            yield f"node {i} is one of the nodes of the cell", Or(*[n[i] == x for x in J.n])
        yield "the cell is on the flipped simplex", field(p, J.o, L[4]) == J.r
        yield "the nodes are those of the vertices of the flipped simplex, in an order with its orientation", TS.perm_sign([node_vertex(J, x) for x in n], J.v) == 1
    J.run(f"flip_{N}_{D}", setup, post, {rf"mito::topology::(Topology::)?flip<{N}>\(": flipped})


def job_diagonal(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"geometry::flip_diagonal(triangles in {D}D)", case)
    L = T.lay[case]
    J.r = [z3.Int("flipped0"), z3.Int("flipped1")]

    def flipped(ex, st, d, a, I):
        """contract of topology::flip_diagonal (verified: T05): two triangles on the vertices of the two given"""
        T.record(st, "flip", *[T.num(ex, ex.load(st, ex.padd(a[1], 8 * k), ir_ptr())) for k in (0, 1)])
        for k in (0, 1):
            ex.store(st, ex.padd(a[0], 8 * k), J.r[k], ir_ptr())

    def built(ex, st, d, a, I):
        """contract of geometric_simplex (verified: job_geometric)"""
        if "::'lambda" in d or not isinstance(a[0], Ptr):
            return NotImplemented
        if "std::vector" not in d:
            raise Unsupported("another container of nodes")
        s = z3.simplify(T.num(ex, ex.load(st, a[1], ir_ptr())))
        k = [i for i in (0, 1) if s.eq(J.r[i])]
        b, e = [ex.load(st, ex.padd(a[2], 8 * i), ir_ptr()) for i in (0, 1)]
        if not k or not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj is not e.obj or (e.off - b.off) % 16:
            raise Unsupported("arguments of geometric_simplex")
        v, E = J.v[k[0]], [T.num(ex, ex.load(st, ex.padd(b, 16 * i), ir_ptr())) for i in range((e.off - b.off) // 16)]
        st.obls.append(("every vertex of the new simplex has its node among those collected", And(*[Or(*[node_vertex(J, n) == x for n in E]) for x in v])))
        J.calls += 1
        n = [z3.Int(f"built{J.calls}_{i}") for i in range(N + 1)]
        st.pc += [Or(*[x == y for y in E]) for x in n] + [TS.perm_sign([node_vertex(J, x) for x in n], v) == 1]
        for i, x in enumerate(n):
            ex.store(st, ex.padd(a[0], L[3] + 16 * i), x, ir_ptr())
            ex.store(st, ex.padd(a[0], L[3] + 16 * i + 8), NULL, ir_ptr())
        ex.store(st, ex.padd(a[0], L[4]), s, ir_ptr())
        return None
    J.calls = 0

    def setup(ex, st):
        J.o = J.out(ex, st, 2 * L[5])
        i = ex.new_obj(st, "cells", 2 * L[5], "param")
        ex.objbyid[i.id] = i
        J.c = [cell_object(J, ex, st, t) for t in "ab"]
        for k, c in enumerate(J.c):
            c[3](i, k * L[5])
        T.nonnull(st, *J.r)
        st.pc += [x < 1 << 40 for x in J.r]
        J.v = [known_simplex(J, st, r) for r in J.r]
        V = J.c[0][1] + J.c[1][1]
        st.pc += [Or(*[x == y for y in V]) for v in J.v for x in v]
        return [Ptr(J.o, 0), Ptr(i, 0)]

    def post(ex, p, kind):
        calls = [r for r in p.ghost["rec"] if r[0] == "flip"]
        s = [c[2] for c in J.c]
        yield "the simplices whose diagonal is flipped are those of the cells", And(z3.BoolVal(len(calls) > 0), *[Or(And(r[1] == s[0], r[2] == s[1]), And(r[1] == s[1], r[2] == s[0])) for r in calls])
        n = [[field(p, J.o, k * L[5] + L[3] + 16 * i) for i in range(N + 1)] for k in (0, 1)]
        for k in (0, 1):
            for i in range(N + 1):
                yield f"node {i} of cell {k} is one of the nodes of the two cells", Or(*[n[k][i] == x for c in J.c for x in c[0]])
        at = [field(p, J.o, k * L[5] + L[4]) for k in (0, 1)]
        w = [[node_vertex(J, x) for x in n[k]] for k in (0, 1)]

        def on(k, r):
            return And(at[k] == J.r[r], TS.perm_sign(w[k], J.v[r]) == 1)
        yield "the cells are on the two new simplices, with the nodes of their vertices in an order with their orientation", Or(And(on(0, 0), on(1, 1)), And(on(0, 1), on(1, 0)))
    J.run(f"diagonal_{N}_{D}", setup, post, {r"mito::topology::flip_diagonal\(": flipped, r"mito::geometry::geometric_simplex<": built})


def job_cells(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"Mesh<{N}-simplices in {D}D>::nCells()", case)

    def setup(ex, st):
        return [J.mesh(ex, st)]

    def post(ex, p, kind):
        yield "the number of cells is that of the collection", z3.BoolVal(z3.is_expr(p.retval) and z3.eq(p.retval, z3.Int("size")))
        yield "nothing changes", z3.BoolVal(not p.heap and p.ghost["has"].eq(J.has0))
    J.run(f"cells_{N}_{D}", setup, post)
