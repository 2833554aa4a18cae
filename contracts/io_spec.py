"""Contracts on the reader and the writer of meshes in the summit format.

A file is a sequence of tokens (words between white space).  The reader is executed on an arbitrary file of the format:
  tok(0) = D, tok(1) = Nv, tok(2) = Nc, tok(3) = 1, then Nv x D coordinates, then Nc x (type, N + 1 numbers of vertices, label).
Its contract: the k-th node is placed at the k-th coordinates, the c-th cell inserted has the nodes listed for it.
The writer is executed on an arbitrary mesh; its contract is on every token it writes: token number T of the file is F(T)
  F(0..3) = D, number of points, number of cells, 1; F(4 + D k + d) = coordinate d of the point of number k + 1;
  F(4 + D n + (N + 3) c + r) = type of the cell, number of the point of the node r - 1 of the cell c, label.
The loops are cut by invariants (engine/loops.py): the candidates relate the position in the file to the variables of the loop."""
import re
import z3
from engine import frontend as F, ir, loops as LP, reals as R
from engine.execu import Ex, State, Ptr, FuncPtr, NULL, UNDEF, Unsupported, PathLimit, Infeasible
from engine.names import parse, base
from .pool_spec import ir_ptr, ir_int, Prover, discharge
from . import pool_spec as PS

I_, B_ = z3.IntSort(), z3.BoolSort()
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
tok = z3.Function("tok", I_, I_)                        # the integer at a position of the file read
PT = z3.Function("point_of_node", I_, I_, I_)           # (cell, node) -> point
KEY = z3.Function("point_of_number", I_, I_)            # inverse of the numbering of the points
PI = z3.Function("visited", I_, I_)                     # the number of the j-th entry visited in the map
PINV = z3.Function("visit", I_, I_)
CASES = [(1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]
TYPE = {1: 2, 2: 3, 3: 4}
DIGITS = 17                                             # significant decimal digits that determine a double


class Double:
    kind, size, bits = "double", 8, 64


class Packed:
    """two integers of 32 bits in a word"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class IEx(Ex):
    def __init__(self, *a, **k):
        Ex.__init__(self, *a, **k)
        self.arrays = {}           # object -> (load, store) at offsets that may be symbolic

    def load(self, st, p, ty):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.id in self.arrays and ty.kind not in ("struct", "array", "vector"):
            return self.arrays[p.obj.id][0](st, p.off, ty)
        return Ex.load(self, st, p, ty)

    def store(self, st, p, v, ty):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.id in self.arrays and ty.kind not in ("struct", "array", "vector"):
            h = self.arrays[p.obj.id][1]
            if h is None:
                raise Unsupported("store into a constant array")
            return h(st, p.off, ty, v)
        return Ex.store(self, st, p, v, ty)

    def load_obj(self, st, p, ty, size):
        if size == 8 and isinstance(p.off, int):
            c = st.cells(p.obj)
            x, y = c.get(p.off), c.get(p.off + 4)
            if x is not None and x[0] == 4 and y is not None and y[0] == 4 and (z3.is_expr(x[1]) or z3.is_expr(y[1])):
                return Packed(x[1], y[1])
        return Ex.load_obj(self, st, p, ty, size)

    def store_obj(self, st, obj, off, size, v):
        if isinstance(v, Packed):
            self.store_obj(st, obj, off, 4, v.lo)
            return self.store_obj(st, obj, off + 4, 4, v.hi)
        return Ex.store_obj(self, st, obj, off, size, v)

    def memcpy(self, st, d, s, n):
        if isinstance(s, Ptr) and s.obj is not None and s.obj.id in self.arrays and isinstance(n, int) and n % 8 == 0:
            for k in range(0, n, 8):
                self.store(st, self.padd(d, k), self.load(st, self.padd(s, k), Double), Double)
            return
        return Ex.memcpy(self, st, d, s, n)


def split(off, stride):
    """off = stride * index + rest, with the rest a constant"""
    if isinstance(off, int):
        return z3.IntVal(off // stride), off % stride
    t = z3.simplify(off, som=True)
    terms = t.children() if z3.is_add(t) else [t]
    idx, rest = [], 0
    for x in terms:
        if z3.is_int_value(x):
            rest += x.as_long()
            continue
        c, y = 1, x
        if z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.num_args() == 2:
            c, y = x.arg(0).as_long(), x.arg(1)
        if c % stride:
            raise Unsupported(f"offset {t} in an array of elements of {stride} bytes")
        idx.append((c // stride) * y)
    i = z3.IntVal(rest // stride)
    for x in idx:
        i = i + x
    return z3.simplify(i), rest % stride


def iv(v):
    return z3.IntVal(v) if isinstance(v, int) else v


class Cut(LP.Loops):
    """outermost loops of the functions of mito::io, one at a time; what is nested in a loop is unrolled"""

    def __init__(self, T, ex, **k):
        self.T = T
        LP.Loops.__init__(self, ex, lambda fn: "mito::io" in ex.dname(fn), **k)

    def info(self, fn):
        r = self.cache.get(fn.name)
        if r is None:
            r = LP.loops_of(fn) if self.select(fn) else {}
            r = {h: b for h, b in r.items() if not any(h in c and g != h for g, c in r.items())}
            self.cache[fn.name] = r
        return r

    def goto(self, st, fr, bb, work=None):
        prev = fr.bb
        lp = self.info(fr.fn).get(bb.idx)
        cuts = st.ghost.get("cuts", ())
        mine = [c for c, _ in cuts if c.fn == fr.fn.name and c.head == bb.idx and c.depth == len(st.frames)]
        live = [c for c, _ in cuts if c.depth < len(st.frames) or (c.depth == len(st.frames) and c.fn == fr.fn.name and bb.idx in c.body)]
        if lp is not None and live and not mine:
            # within another loop: unrolled
            saved, self.cache[fr.fn.name] = self.cache[fr.fn.name], {}
            try:
                return LP.Loops.goto(self, st, fr, bb, work)
            finally:
                self.cache[fr.fn.name] = saved
        return LP.Loops.goto(self, st, fr, bb, work)

    def freshlike(self, v, nm):
        if isinstance(v, Ptr) and v.obj is not None and v.obj.id in self.T.strides:
            s = self.T.strides[v.obj.id]
            i, rest = split(v.off, s)
            self.n += 1
            x = z3.Int(f"{nm}!{self.n}")
            return Ptr(v.obj, z3.simplify(s * x + rest))
        return LP.Loops.freshlike(self, v, nm)


GHOSTS = ("pos", "mid", "sizes", "count", "has", "idx", "npoints", "pv", "numout", "sep", "nl", "prec")


class IO:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("io.cc"), "O0raw"))

    def layout(self, case):
        e = Ex(self.mod)
        out = []
        for i in range(12):
            p = e.run(self.mod.funcs["layout_%d_%d" % case], [i])
            if len(p) != 1 or not isinstance(p[0].retval, int):
                raise Unsupported("layout of the classes")
            out.append(p[0].retval)
        return out


class Job:
    def __init__(self, ctx, T, case, title):
        self.ctx, self.T, self.case, self.title = ctx, T, case, title
        self.N, self.D = case
        self.W = self.N + 3                       # tokens of a cell
        self.lay = T.layout(case)
        self.strides = {}
        self.prov = {}
        ex = self.ex = IEx(T.mod, max_steps=400000, max_paths=300)
        ex.objbyid = {}
        ex.patterns.append((lambda d, f: True, self.dispatch))
        self.pv = Prover(ctx, ex)
        self.Nv, self.Nc = z3.Ints("N_vertices N_cells")

    # ------------------------------------------------------------ objects
    def obj(self, st, n, name):
        o = self.ex.new_obj(st, name, n, "param")
        self.ex.objbyid[o.id] = o
        return o

    def array(self, st, name, stride, load, store=None):
        o = self.obj(st, None, name)
        self.ex.arrays[o.id] = (load, store)
        if stride:
            self.strides[o.id] = stride
        return o

    def req(self, st, what, f):
        st.obls.append((what, f if z3.is_expr(f) else z3.BoolVal(bool(f))))

    def info(self, st, *x):
        """a value that stands for an object: a pointer, with what it stands for"""
        o = self.obj(st, None, str(x[0]))
        st.ghost[("info", o.id)] = x
        return Ptr(o, 0)

    def what(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None:
            return None
        return st.ghost.get(("info", p.obj.id))

    def ref(self, st, name, value):
        """the address of a value"""
        def load(s, off, ty):
            if off != 0 or ty.size != 8:
                raise Unsupported("a part of a handle")
            return value
        return Ptr(self.array(st, name, 0, load), 0)

    # ------------------------------------------------------------ dispatch
    def dispatch(self, ex, st, a, I):
        d = ex.dname(ex.cur_fn)
        k = ex.hcache.get(("parse", ex.cur_fn.name))
        if k is None:
            c, m, args = parse(d) or ("", "", "")
            k = (c, base(c), m, args)
            ex.hcache[("parse", ex.cur_fn.name)] = k
        cls, b, m, args = k
        this = a[0] if a else None
        if "mito::io" in d:
            return NotImplemented
        if "pyre::journal::" in d:
            return this if I.ty.kind == "ptr" else None if I.ty.kind == "void" else 0
        if b == "std::vector":
            return self.vector(ex, st, cls, m, args, a, I)
        if b == "std::unordered_map":
            return self.umap(ex, st, cls, m, args, a, I)
        if b in ("std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator") and m in ("operator*", "operator->", "operator++"):
            p = ex.load(st, this, ir_ptr())
            if m != "operator++":
                return p
            if p.obj.id not in self.strides:
                raise Unsupported("increment of an iterator")
            ex.store(st, this, ex.padd(p, self.strides[p.obj.id]), ir_ptr())
            if args != "()":
                raise Unsupported("post-increment")
            return this
        if b == "mito::utilities::SegmentedVector":
            return self.cells(ex, st, m, a, I)
        if b == "mito::utilities::SegmentedContainerIterator" and m in ("operator*", "operator->", "operator++"):
            p = ex.load(st, this, ir_ptr())
            if m == "operator++":
                if args != "()":
                    raise Unsupported("post-increment")
                self.req(st, "an iterator is incremented only before the end", split(p.off, self.lay[6])[0] < self.Nc)
                ex.store(st, this, ex.padd(p, self.lay[6]), ir_ptr())
                return this
            self.req(st, "only cells of the mesh are read", split(p.off, self.lay[6])[0] < self.Nc)
            return p
        if re.match(r"bool mito::utilities::operator(!=|==)<mito::utilities::SegmentedVector<", d):
            p, q = (ex.load(st, x, ir_ptr()) for x in a[:2])
            return ex.icmp(st, "ne" if "operator!=" in d else "eq", p, q, ir_ptr())
        if b == "mito::utilities::StdSharedPointer":
            return self.node(ex, st, d, m, args, a, I)
        if b == "mito::utilities::SharedPointer":
            if m == "SharedPointer":
                v = 0 if len(a) == 1 else ex.load(st, a[1], ir_ptr()) if args.count("&") else None
                if v is None:
                    raise Unsupported("a handle of its own")
                ex.store(st, this, NULL if isinstance(v, int) else v, ir_ptr())
                return None
            if m == "~SharedPointer":
                return None
            if m == "operator=":
                ex.store(st, this, ex.load(st, a[1], ir_ptr()), ir_ptr())
                return this
            raise Unsupported("SharedPointer::" + m)
        if b == "mito::geometry::GeometricSimplex" and m in ("point", "vertex"):
            w = self.what(st, this)
            if w is None or w[0] not in ("node", "listed"):
                raise Unsupported(f"{m} of an unknown node")
            if w[0] == "node":
                if m == "vertex":
                    raise Unsupported("vertex of a node")
                return self.ref(st, "point", PT(w[1], w[2]))
            return self.ref(st, m, self.info(st, m + " of", w[1]))
        if d.startswith("mito::utilities::StdSharedPointer<mito::geometry::GeometricSimplex<0, ") and " mito::geometry::node<" in d:
            cs, co = a[1], a[2]
            vals = [ex.load(st, ex.padd(co, 8 * k), Double) for k in range(self.D)]
            ex.store(st, a[0], self.info(st, "placed", vals, cs), ir_ptr())
            return None
        if b == "mito::geometry::CoordinateSystem":
            if m == "coordinates" and len(a) == 2:
                x = ex.load(st, a[1], ir_ptr())
                self.req(st, "the coordinates are those of the coordinate system given", a[0] == st.ghost.get("cs"))
                return self.coordinates(st, x)
            raise Unsupported("CoordinateSystem::" + m)
        if b == "mito::mesh::Mesh" or " mito::mesh::mesh<" in d:
            r = self.mesh(ex, st, d, b, m, args, a, I)
            if r is not NotImplemented:
                return r
        if "std::__cxx11::basic_string<" in d and ("basic_string<" in cls or " std::operator+<" in d) or m in ("basic_string", "~basic_string"):
            return self.string(ex, st, d, cls, m, a, I)
        if "std::basic_ifstream<" in cls or "std::istream" in d or "std::basic_istream<" in d:
            return self.input(ex, st, d, cls, m, args, a, I)
        if "std::basic_ofstream<" in cls or "std::ostream" in d or "std::basic_ostream<" in d or "std::ios_base" in cls:
            return self.output(ex, st, d, cls, m, args, a, I)
        if m in ("~array", "~pair", "~Coordinates"):
            return None
        if b in ("std::allocator", "std::__new_allocator"):
            return None if I.ty.kind == "void" else this
        return NotImplemented

    def coordinates(self, st, x):
        def load(s, off, ty):
            if not isinstance(off, int) or off % 8 or not 0 <= off < 8 * self.D:
                raise Unsupported("coordinates at a symbolic index")
            v = R.var(f"x{len(self.prov)}")
            self.prov[v.args[0]] = ("coordinate", x, off // 8)
            return v
        return Ptr(self.array(st, "coordinates", 0, load), 0)

    # ------------------------------------------------------------ nodes
    def node(self, ex, st, d, m, args, a, I):
        if m == "StdSharedPointer":
            if len(a) == 2 and "StdSharedPointer" in args:
                ex.store(st, a[0], ex.load(st, a[1], ir_ptr()), ir_ptr())
                return None
            if len(a) == 3:
                v, p = (ex.load(st, x, ir_ptr()) for x in a[1:])
                ex.store(st, a[0], self.info(st, "made", self.what(st, v), self.what(st, p)), ir_ptr())
                return None
            raise Unsupported("construction of a node")
        if m == "~StdSharedPointer":
            return None
        if m == "operator=":
            ex.store(st, a[0], ex.load(st, a[1], ir_ptr()), ir_ptr())
            return a[0]
        if m == "operator->":
            return ex.load(st, a[0], ir_ptr())
        raise Unsupported("StdSharedPointer::" + m)

    # ------------------------------------------------------------ vectors of nodes and of points
    def vkey(self, p):
        return (p.obj.id, p.off)

    def vector(self, ex, st, cls, m, args, a, I):
        nodes = cls.startswith("std::vector<mito::utilities::StdSharedPointer<")
        points = cls.startswith("std::vector<mito::utilities::SharedPointer<mito::geometry::Point<")
        if not nodes and not points:
            raise Unsupported(cls)
        k = self.vkey(a[0])
        g = ("sizes", k)
        if m == "vector":
            n = z3.IntVal(0)
            if len(a) > 1 and not isinstance(a[1], Ptr):
                n = iv(a[1])
            elif len(a) > 1 and "vector" in args:
                raise Unsupported("copy of a vector")
            st.ghost[g] = n
            self.data(st, k, nodes)
            return None
        if m == "~vector":
            return None
        if g not in st.ghost:
            raise Unsupported("a vector out of sight")
        n = st.ghost[g]
        if m == "size":
            return n
        if m == "empty":
            return n == 0
        if m in ("reserve", "shrink_to_fit"):
            return None
        if m == "capacity":
            raise Unsupported("capacity of a vector")
        D = st.ghost[("data", k)]
        stride = 16 if nodes else 8
        if m in ("operator[]", "at"):
            i = iv(a[1])
            self.req(st, "the vector has the element read", And(i >= 0, i < n))
            return ex.padd(D, z3.simplify(stride * i))
        if m in ("push_back", "emplace_back") and len(a) == 2:
            x = ex.load(st, a[1], ir_ptr())
            if nodes:
                self.listed(st, n, x)
            else:
                st.ghost["pv"] = z3.Store(st.ghost["pv"], n, x)
            st.ghost[g] = z3.simplify(n + 1)
            return ex.padd(D, z3.simplify(stride * n)) if I.ty.kind == "ptr" else None
        if m in ("begin", "cbegin", "data"):
            return D if I.ty.kind == "ptr" else [D]
        if m in ("end", "cend"):
            e = ex.padd(D, z3.simplify(stride * n))
            return e if I.ty.kind == "ptr" else [e]
        raise Unsupported("vector::" + m)

    def data(self, st, k, nodes):
        g = ("sizes", k)
        if nodes:
            def load(s, off, ty):
                i, r = split(off, 16)
                if r or ty.size != 8:
                    raise Unsupported("a part of a node")
                return self.info(s, "listed", i)
            o = self.array(st, "nodes", 16, load)
        else:
            if "pv" in st.ghost:
                raise Unsupported("several vectors of points")
            st.ghost["pv"] = z3.FreshConst(z3.ArraySort(I_, I_), "points")

            def load(s, off, ty):
                i, r = split(off, 8)
                if r or ty.size != 8:
                    raise Unsupported("a part of a point")
                self.req(s, "the vector has the element read", And(i >= 0, i < s.ghost[g]))
                s.pc.append(Implies(And(i >= 0, i < s.ghost["npoints"]), And(PI(PINV(i + 1)) == i + 1, PINV(i + 1) >= 0, PINV(i + 1) < s.ghost["npoints"])))
                return z3.Select(s.ghost["pv"], i)

            def store(s, off, ty, v):
                i, r = split(off, 8)
                if r or ty.size != 8:
                    raise Unsupported("a part of a point")
                self.req(s, "the vector has the element written", And(i >= 0, i < s.ghost[g]))
                if isinstance(v, Ptr):
                    raise Unsupported("an unknown point")
                s.ghost["pv"] = z3.Store(s.ghost["pv"], i, v)
            o = self.array(st, "points", 8, load, store)
        st.ghost[("data", k)] = Ptr(o, 0)

    def listed(self, st, n, x):
        """node n of the file"""
        w = self.what(st, x)
        ok = w is not None and w[0] == "placed"
        self.req(st, "a node is placed for every vertex listed", And(ok, n < self.Nv))
        if ok:
            self.req(st, "the node is placed in the coordinate system given", w[2] == st.ghost["cs"])
            for d, v in enumerate(w[1]):
                p = self.prov.get(v.args[0]) if isinstance(v, R.Node) and v.op == "v" else None
                ok = p is not None and p[0] == "token"
                self.req(st, f"coordinate {d} of node k is token 4 + {self.D} k + {d} of the file", p[1] == 4 + self.D * n + d if ok else False)

    # ------------------------------------------------------------ the mesh
    def mesh(self, ex, st, d, b, m, args, a, I):
        if b != "mito::mesh::Mesh":
            st.ghost["mesh"] = self.vkey(a[0])
            self.req(st, "one mesh is made", st.ghost.get("count") is None)
            st.ghost["count"] = z3.IntVal(0)
            return None
        if m == "Mesh" and len(a) == 2:
            self.req(st, "the mesh moved is the mesh made", st.ghost.get("mesh") == self.vkey(a[1]))
            st.ghost["mesh"] = self.vkey(a[0])
            return None
        if m == "Mesh" and len(a) == 1:
            st.ghost["mesh"] = self.vkey(a[0])
            self.req(st, "one mesh is made", st.ghost.get("count") is None)
            st.ghost["count"] = z3.IntVal(0)
            return None
        if m == "~Mesh":
            return None
        if m == "nCells":
            if "count" in st.ghost:
                return st.ghost["count"]
            return self.Nc
        if m == "insert" and "std::array<" in args:
            self.req(st, "the cell is inserted in the mesh returned", st.ghost.get("mesh") == self.vkey(a[0]))
            c = st.ghost["count"]
            self.req(st, "a cell is inserted for every cell listed", c < self.Nc)
            q = 4 + self.D * self.Nv + self.W * c
            seen = set()
            for j in range(self.N + 1):
                p = ex.load(st, ex.padd(a[1], self.lay[5] * j), ir_ptr())
                w = self.what(st, p)
                i = None
                if w is not None and w[0] == "listed" and not st.ghost["dg"]:
                    i = w[1]
                if w is not None and w[0] == "made" and st.ghost["dg"] and p.obj.id not in seen:
                    v, x = w[1:]
                    if v and x and v[0] == "vertex of" and x[0] == "point of":
                        self.req(st, "a new node has the vertex and the point of one node", v[1] == x[1])
                        i = v[1]
                seen.add(p.obj.id if isinstance(p, Ptr) and p.obj else None)
                self.req(st, f"node {j} of the cell c is " + ("a new node on the vertex and the point of" if st.ghost["dg"] else "") + f" the node listed in token {j + 1} of the cell",
                         i == tok(q + 1 + j) - 1 if i is not None else False)
            st.ghost["count"] = z3.simplify(c + 1)
            return self.info(st, "cell")
        if m in ("cells", "dim"):
            return NotImplemented
        raise Unsupported("Mesh::" + m)

    def cells(self, ex, st, m, a, I):
        C = st.ghost.get("cells")
        if C is None:
            raise Unsupported("cells of the mesh")
        if m == "size":
            return self.Nc
        if m in ("begin", "end"):
            p = C if m == "begin" else ex.padd(C, self.lay[6] * self.Nc)
            if I.ty.kind == "void":
                ex.store(st, a[0], p, ir_ptr())
                return None
            if I.ty.kind == "ptr":
                return p
            return [p] + [NULL] * (len(I.ty.elems) - 1)
        raise Unsupported("SegmentedVector::" + m)

    # ------------------------------------------------------------ the numbering of the points
    def entry(self, st, key):
        """the entry of a key in the map"""
        L = self.lay

        def load(s, off, ty):
            if off == 0 and ty.size == 8:
                return key
            if off == L[4] and ty.size == 4:
                return z3.Select(s.ghost["idx"], key)
            raise Unsupported("a part of an entry")

        def store(s, off, ty, v):
            if off == L[4] and ty.size == 4:
                self.number(s, key, iv(v))
                return
            raise Unsupported("a part of an entry")
        return Ptr(self.array(st, "entry", 0, load, store), 0)

    def number(self, st, key, v):
        """a new entry of the map: the class invariant of the map - it numbers its keys 1, 2, ... - is preserved"""
        st.ghost["idx"] = z3.Store(st.ghost["idx"], key, v)
        self.req(st, "a new point gets the next number", v == st.ghost["npoints"])

    def insert(self, ex, st, key, v):
        has, idx, n = st.ghost["has"], st.ghost["idx"], st.ghost["npoints"]
        if not (z3.is_expr(key) and z3.is_app(key) and key.decl().eq(PT)):
            raise Unsupported("the key of the map is not the point of a node")
        old = z3.Select(has, key)
        self.req(st, "a new point gets the next number", Or(old, v == n + 1))
        st.ghost["has"] = z3.Store(has, key, True)
        st.ghost["idx"] = If(old, idx, z3.Store(idx, key, v))
        st.ghost["npoints"] = z3.simplify(n + If(old, 0, 1))
        return [self.entry(st, key), If(old, z3.IntVal(0), z3.IntVal(1))]

    def umap(self, ex, st, cls, m, args, a, I):
        if not re.match(r"std::unordered_map<mito::utilities::SharedPointer<mito::geometry::Point<", cls):
            raise Unsupported(cls)
        if m in ("unordered_map",):
            if "has" in st.ghost or len(a) > 1 and isinstance(a[1], Ptr):
                raise Unsupported("several maps of points")
            st.ghost["map"] = self.vkey(a[0])
            st.ghost["has"] = z3.K(I_, z3.BoolVal(False))
            st.ghost["idx"] = z3.K(I_, z3.IntVal(0))
            st.ghost["npoints"] = z3.IntVal(0)
            return None
        if m == "~unordered_map":
            return None
        if st.ghost.get("map") != self.vkey(a[0]) and not (I.ty.kind == "void" and len(a) > 1 and st.ghost.get("map") == self.vkey(a[1])):
            raise Unsupported("another map")
        L = self.lay
        if m == "size":
            return st.ghost["npoints"]
        if m == "empty":
            return st.ghost["npoints"] == 0
        if m == "reserve":
            return None
        if m == "insert" and len(a) == 2 and "pair" in args:
            return self.insert(ex, st, ex.load(st, a[1], ir_ptr()), iv(ex.load(st, ex.padd(a[1], L[4]), ir_int(32))))
        if m in ("emplace", "try_emplace") and len(a) == 3:
            return self.insert(ex, st, ex.load(st, a[1], ir_ptr()), iv(ex.load(st, a[2], ir_int(32))))
        if m in ("contains", "count"):
            x = z3.Select(st.ghost["has"], ex.load(st, a[1], ir_ptr()))
            return x if m == "contains" else If(x, z3.IntVal(1), z3.IntVal(0))
        if m in ("at", "operator[]"):
            key = ex.load(st, a[1], ir_ptr())
            has = z3.Select(st.ghost["has"], key)
            if m == "at":
                self.req(st, "the point has a number", has)
            elif ex.decide(st, Not(has), None):
                # the number comes with the assignment
                if not (z3.is_app(key) and key.decl().eq(PT)):
                    raise Unsupported("the key of the map is not the point of a node")
                st.ghost["has"] = z3.Store(st.ghost["has"], key, True)
                st.ghost["npoints"] = z3.simplify(st.ghost["npoints"] + 1)
            return ex.padd(self.entry(st, key), L[4])
        if m in ("find",):
            key = ex.load(st, a[1], ir_ptr())
            p = self.entry(st, key) if ex.decide(st, z3.Select(st.ghost["has"], key), None) else self.range(st)[1]
            return p if I.ty.kind == "ptr" else [p]
        if m in ("begin", "end", "cbegin", "cend"):
            p = self.range(st)[m.endswith("end")]
            return p if I.ty.kind == "ptr" else [p]
        raise Unsupported("unordered_map::" + m)

    def range(self, st):
        """the entries in the order visited: PI is a bijection onto 1 .. n (the numbers are distinct: invariant)"""
        if "entries" not in st.ghost:
            L = self.lay

            def load(s, off, ty):
                j, r = split(off, L[3])
                self.req(s, "only entries of the map are read", And(j >= 0, j < s.ghost["npoints"]))
                s.pc.append(Implies(And(j >= 0, j < s.ghost["npoints"]), And(PI(j) >= 1, PI(j) <= s.ghost["npoints"])))
                if r == 0 and ty.size == 8:
                    return KEY(PI(j))
                if r == L[4] and ty.size == 4:
                    return PI(j)
                raise Unsupported("a part of an entry")
            st.ghost["entries"] = Ptr(self.array(st, "entries", L[3], load), 0)
            st.ghost["range"] = st.ghost["npoints"]
        self.req(st, "the map does not change while it is visited", st.ghost["range"] == st.ghost["npoints"])
        E = st.ghost["entries"]
        return E, self.ex.padd(E, z3.simplify(self.lay[3] * st.ghost["npoints"]))

    # ------------------------------------------------------------ strings
    def string(self, ex, st, d, cls, m, a, I):
        g = lambda p: ("str",) + self.vkey(p)
        if m == "basic_string":
            if len(a) == 1:
                v = ()
            elif isinstance(a[1], Ptr) and g(a[1]) in st.ghost:
                v = st.ghost[g(a[1])]
            elif isinstance(a[1], Ptr) and a[1].obj is not None and a[1].obj.kind == "global":
                v = (("lit", ex.cstring(st, a[1])),)
            else:
                v = (("unknown", a[0].obj.id),)
            st.ghost[g(a[0])] = v
            return None
        if m == "~basic_string":
            return None
        if " std::operator+<" in d:
            v = ()
            for p in a[1:]:
                v += st.ghost[g(p)] if g(p) in st.ghost else (("lit", ex.cstring(st, p)),) if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "global" else (("unknown", 0),)
            st.ghost[g(a[0])] = v
            return None
        if m in ("operator+=", "append") and len(a) == 2:
            p = a[1]
            v = st.ghost[g(p)] if g(p) in st.ghost else (("lit", ex.cstring(st, p)),) if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "global" else (("unknown", 0),)
            st.ghost[g(a[0])] = st.ghost.get(g(a[0]), ()) + v
            return a[0]
        if m == "empty" and st.ghost.get(g(a[0])) == (("sym", "element type"),):
            return z3.Bool("the element type is empty")
        raise Unsupported("string::" + m)

    # ------------------------------------------------------------ the file read
    def input(self, ex, st, d, cls, m, args, a, I):
        if m == "is_open":
            return 1
        B = 4 + self.D * self.Nv
        if isinstance(a[0], Ptr) and a[0].obj.id == st.ghost.get("file") and ("std::getline<" in d and len(a) == 2 or m == "ignore" and len(a) == 3):
            # the rest of the line of a cell
            if m == "ignore" and (a[1] != (1 << 63) - 1 or a[2] != 10):
                raise Unsupported("istream::ignore")
            pos, mid = st.ghost["pos"], st.ghost["mid"]
            r = (pos - B) % self.W
            self.req(st, "a line is skipped only within a cell", Or(mid, And(pos >= B, r >= 1)))
            st.ghost["pos"] = z3.simplify(If(mid, pos, pos - r + self.W))
            st.ghost["mid"] = z3.BoolVal(False)
            if m != "ignore":
                st.ghost[("str",) + self.vkey(a[1])] = (("unknown", 0),)
            return a[0]
        if "operator>>" in d and len(a) == 2 and isinstance(a[0], Ptr) and a[0].obj.id == st.ghost.get("file"):
            pos = st.ghost["pos"]
            self.req(st, "what follows the label on the line of a cell is skipped", Not(st.ghost["mid"]))
            self.req(st, "only tokens of the file are read", pos < B + self.W * self.Nc)
            if "(int&)" in args or "(long&)" in args or "(unsigned int&)" in args or "(unsigned long&)" in args:
                v = tok(pos)
                r = (pos - B) % self.W
                cell = And(pos >= B, pos < B + self.W * self.Nc)
                st.pc += [Implies(pos == 0, v == self.D), Implies(pos == 1, v == self.Nv), Implies(pos == 2, v == self.Nc), Implies(pos == 3, v == 1),
                          Implies(And(cell, r == 0), v == TYPE[self.N]), Implies(And(cell, r >= 1, r <= self.N + 1), And(v >= 1, v <= self.Nv))]
                self.req(st, "an integer is read where the format has one", Or(pos < 4, pos >= B))
                ex.store(st, a[1], v, ir_int(64 if "long&" in args else 32))
            elif "(double&)" in args:
                self.req(st, "a coordinate is read where the format has one", And(pos >= 4, pos < B))
                v = R.var(f"t{len(self.prov)}")
                self.prov[v.args[0]] = ("token", pos)
                ex.store(st, a[1], v, Double)
            elif "basic_string<" in d:
                st.ghost[("str",) + self.vkey(a[1])] = (("unknown", 0),)
                st.ghost["mid"] = z3.simplify(And(pos >= B, (pos - B) % self.W == self.W - 1))
            else:
                raise Unsupported(d[:80])
            st.ghost["pos"] = z3.simplify(pos + 1)
            return a[0]
        if m in ("~basic_ifstream", "good", "fail", "close"):
            return None if I.ty.kind == "void" else int(m == "good")
        raise Unsupported("istream: " + d[:100])

    # ------------------------------------------------------------ the file written
    def token(self, st, kind, v):
        n, Nc, W, D = st.ghost["npoints"], self.Nc, self.W, self.D
        t = st.ghost["numout"]
        B = 4 + D * n
        self.req(st, "tokens are separated", st.ghost["sep"])
        self.req(st, "no token follows those of the last cell", t < B + W * Nc)
        if kind == "int":
            v = iv(v)
            c, r = (t - B) / W, (t - B) % W
            self.req(st, "the header has the dimension, the number of points, the number of cells and 1",
                     And(Implies(t == 0, v == D), Implies(t == 1, v == n), Implies(t == 2, v == Nc), Implies(t == 3, v == 1)))
            self.req(st, "coordinates are written where the format has coordinates", Or(t < 4, t >= B))
            cell = t >= B
            self.req(st, "a cell has a line of its own", Implies(And(cell, r == 0, t > B), st.ghost["nl"]))
            self.req(st, "the first token of a cell is its type", Implies(And(cell, r == 0), v == TYPE[self.N]))
            for j in range(self.N + 1):
                self.req(st, f"token {j + 1} of a cell is the number of the point of its node {j}", Implies(And(cell, r == j + 1), v == z3.Select(st.ghost["idx"], PT(c, j))))
        elif kind == "double":
            p = self.prov.get(v.args[0]) if isinstance(v, R.Node) and v.op == "v" else None
            k, dd = (t - 4) / D, (t - 4) % D
            self.req(st, "coordinates are written where the format has coordinates", And(t >= 4, t < B))
            self.req(st, "the coordinates written for the number k are those of the point of that number",
                     And(p[1] == KEY(k + 1), dd == p[2]) if p is not None and p[0] == "coordinate" else False)
            self.req(st, "coordinates are written with all their digits (17)", st.ghost["prec"] >= DIGITS)
        else:
            self.req(st, "a word is written only as the label of a cell", And(t >= B, (t - B) % W == W - 1))
        st.ghost["numout"] = z3.simplify(t + 1)
        st.ghost["sep"] = st.ghost["nl"] = z3.BoolVal(False)

    def label(self, st):
        """the element type, an arbitrary word or nothing: only what follows the label on the line of a cell is skipped by the reader"""
        t, B, W = st.ghost["numout"], 4 + self.D * st.ghost["npoints"], self.W
        self.req(st, "the element type follows the label on the line of a cell", And(t > B, (t - B) % W == 0, Not(st.ghost["nl"]), st.ghost["sep"]))
        st.ghost["sep"] = st.ghost["nl"] = z3.BoolVal(False)

    def text(self, st, s):
        for w in re.findall(r"\s+|\S+", s):
            if w.isspace():
                st.ghost["sep"] = z3.BoolVal(True)
                if "\n" in w:
                    st.ghost["nl"] = z3.BoolVal(True)
            elif re.fullmatch(r"\d+", w):
                self.token(st, "int", int(w))
            else:
                self.token(st, "word", w)

    def output(self, ex, st, d, cls, m, args, a, I):
        if m == "basic_ofstream":
            mode = a[2] if len(a) > 2 else 16
            s = st.ghost.get(("str",) + self.vkey(a[1]), ()) if isinstance(a[1], Ptr) else ()
            self.req(st, "one file is written", st.ghost.get("out") is None)
            self.req(st, "the file has the name given and the extension .summit", s == (("sym", "name"), ("lit", ".summit")))
            self.req(st, "the file is written anew", isinstance(mode, int) and not mode & 1 and bool(mode & 16))
            st.ghost["out"] = self.vkey(a[0])
            st.ghost["closed"] = z3.BoolVal(False)
            return None
        if m in ("close", "~basic_ofstream"):
            if m == "close":
                st.ghost["closed"] = z3.BoolVal(True)
            return None
        if m == "is_open":
            return 1
        if m == "flush" or d.startswith("std::ostream::flush"):
            return a[0]
        if not (isinstance(a[0], Ptr) and st.ghost.get("out") == self.vkey(a[0])):
            if m == "precision" and isinstance(a[0], Ptr) and st.ghost.get("out") and a[0].obj.id == st.ghost["out"][0] and len(a) == 2:
                st.ghost["prec"] = iv(a[1])
                return 6
            raise Unsupported("another stream: " + d[:80])
        if m == "precision" and len(a) == 2:
            st.ghost["prec"] = iv(a[1])
            return 6
        if "operator<<" in d and len(a) == 2:
            if isinstance(a[1], FuncPtr):
                nm = ex.dname(a[1].fn)
                if "endl" in nm:
                    st.ghost["sep"] = st.ghost["nl"] = z3.BoolVal(True)
                    return a[0]
                if "flush" in nm or "std::scientific" in nm:
                    return a[0]
                raise Unsupported("manipulator " + nm)
            if "_Setprecision" in d:
                v = a[1]
                st.ghost["prec"] = iv(v[0] if isinstance(v, list) else v)
                return a[0]
            if "basic_string<" in d:
                s = st.ghost.get(("str",) + self.vkey(a[1]))
                if s == (("sym", "element type"),):
                    self.label(st)
                    return a[0]
                if s == ():
                    return a[0]
                if s is None or any(x[0] != "lit" for x in s):
                    raise Unsupported("an unknown string is written")
                self.text(st, "".join(x[1] for x in s))
                return a[0]
            if "(double)" in args:
                self.token(st, "double", a[1])
                return a[0]
            if re.search(r"\((int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long)\)", args):
                self.token(st, "int", a[1])
                return a[0]
            if "char const*)" in args:
                self.text(st, ex.cstring(st, a[1]))
                return a[0]
            if re.search(r", char\)", args) and isinstance(a[1], int):
                self.text(st, chr(a[1] & 255))
                return a[0]
        raise Unsupported("ostream: " + d[:100])

    # ------------------------------------------------------------ invariants
    def scalar(self, view, k):
        """the value of a variant as an integer: the index for a pointer into an array"""
        v = view[k]
        if isinstance(v, Ptr):
            if v.obj is None or v.obj.id not in self.strides:
                return None
            return split(v.off, self.strides[v.obj.id])[0]
        if isinstance(v, int) or z3.is_expr(v) and v.sort() == I_:
            return iv(v)
        return None

    def where(self, k, view):
        v = view[k]
        if isinstance(v, Ptr):
            return v.obj.name
        return "/".join(str(x) for x in k[:2])

    def candidates(self, cut, ev, hv, syms):
        out = []
        lin = [k for k in syms if self.scalar(ev, k) is not None and (k[0] == "ghost" or k[0] == "mem" or k[0] == "phi")]
        gh = [k for k in lin if k[0] == "ghost"]
        var = [k for k in lin if k[0] != "ghost"]
        j = z3.Int("j")
        ent = self.ex.loop_entry = ev.st
        for k in lin:
            nm = self.where(k, hv) if k[0] != "ghost" else str(k[1][0] if isinstance(k[1], tuple) else k[1])
            f = lambda w, k=k: self.scalar(w, k)
            e = f(ev)
            out.append((f"{nm} does not decrease", lambda w, f=f, e=e: f(w) >= e))
            out.append((f"{nm} does not increase", lambda w, f=f, e=e: f(w) <= e))
            for b in (-1, 0, 1):
                out.append((f"{nm} is at least {b}", lambda w, f=f, b=b: f(w) >= b))
            for bn, b in (("the number of vertices listed", self.Nv), ("the number of cells", self.Nc), ("the number of points", ent.ghost.get("npoints"))):
                if b is not None:
                    out.append((f"{nm} is at most {bn}", lambda w, f=f, b=b: f(w) <= b))
        for k in var:
            for h in lin:
                if h == k:
                    continue
                ke, he = self.scalar(ev, k), self.scalar(ev, h)
                nk, nh = self.where(k, hv), (str(h[1][0] if isinstance(h[1], tuple) else h[1]) if h[0] == "ghost" else self.where(h, hv))
                for c in dict.fromkeys((1, self.D, self.W, -1, -self.D, -self.W)):
                    out.append((f"{nh} advances by {c} with {nk}", lambda w, k=k, h=h, c=c, ke=ke, he=he: self.scalar(w, h) - he == c * (self.scalar(w, k) - ke)))
        for h in gh:
            for k in gh:
                if h != k:
                    he, ke = self.scalar(ev, h), self.scalar(ev, k)
                    for c in dict.fromkeys((1, self.D, self.W)):
                        out.append((f"ghost {h[1]} advances by {c} with {k[1]}", lambda w, k=k, h=h, c=c, ke=ke, he=he: self.scalar(w, h) - he == c * (self.scalar(w, k) - ke)))
        if ("ghost", "npoints") in syms:
            for k in var:
                if not isinstance(hv[k], Ptr):
                    out.append((f"{self.where(k, hv)} is the next number", lambda w, k=k: self.scalar(w, k) == w.st.ghost["npoints"] + 1))
                    out.append((f"{self.where(k, hv)} is the number of points", lambda w, k=k: self.scalar(w, k) == w.st.ghost["npoints"]))
        if ("ghost", "mid") in syms:
            out.append(("what follows the label has been skipped", lambda w: Not(w.st.ghost["mid"])))
        if ("ghost", "sep") in syms:
            out.append(("tokens are separated", lambda w: w.st.ghost["sep"]))
        if ("ghost", "nl") in syms:
            out.append(("the line is ended", lambda w: w.st.ghost["nl"]))
        if ("ghost", "prec") in syms:
            out.append(("the precision", lambda w: w.st.ghost["prec"] >= DIGITS))
        if ("ghost", "has") in syms:
            for k in var:
                out.append((f"the nodes of the cells before {self.where(k, hv)} have numbers", lambda w, k=k: And(
                    [z3.ForAll([j], Implies(And(j >= 0, j < self.scalar(w, k)), z3.Select(w.st.ghost["has"], PT(j, r))), patterns=[PT(j, r)]) for r in range(self.N + 1)])))
        if ("ghost", "pv") in syms:
            for k in var:
                out.append((f"the entries before {self.where(k, hv)} are in place", lambda w, k=k: z3.ForAll(
                    [j], Implies(And(j >= 0, j < self.scalar(w, k)), z3.Select(w.st.ghost["pv"], PI(j) - 1) == KEY(PI(j))), patterns=[PI(j)])))
        return out

    def measures(self, cut, ev, hv, syms):
        var = [k for k in syms if k[0] != "ghost" and self.scalar(ev, k) is not None]
        if var:
            bounds = [b for b in (self.Nv, self.Nc, ev.st.ghost.get("npoints")) if b is not None]
            yield "a variable of the loop runs towards a bound", [
                f for k in var for f in [lambda h, a, k=k, b=b: And(self.scalar(a, k) > self.scalar(h, k), self.scalar(h, k) < b) for b in bounds] + [
                    lambda h, a, k=k: And(self.scalar(a, k) < self.scalar(h, k), self.scalar(h, k) >= 0)]]

    # ------------------------------------------------------------ run
    def run(self, fname, setup, post):
        ex, ctx = self.ex, self.ctx
        st = State()
        st.heap = {}
        try:
            st.pc += [self.Nv >= 0, self.Nv < 1 << 31, self.Nc >= 0, self.Nc < 1 << 31]
            args = setup(st)
            Cut(self, ex, candidates=self.candidates, ghosts=GHOSTS, prove=lambda s, g: self.pv.valid(s, g, 3000), measures=self.measures)
            paths = ex.run(self.T.mod.funcs[fname % self.case], args, st)
            ctx.vacuity_ok()

            def wrap(ex, p, A):
                for k, f in post(p):
                    yield k, f if z3.is_expr(f) else z3.BoolVal(bool(f))
            discharge(ctx, ex, self.pv, paths, self.title, None, wrap)
            ctx.models |= {ex.dname(self.T.mod.funcs[n])[:100] for n in ex.contracted}
        except (Unsupported, PathLimit) as e:
            PS.unsupported(ctx, self.title, e)


NAMES = {1: "segments", 2: "triangles", 3: "tetrahedra"}


def job_read(ctx, T, case, dg):
    J = Job(ctx, T, case, f"reader<{NAMES[case[0]]} in {case[1]}D, {'DG' if dg else 'CG'}>")

    def setup(st):
        f, c, m = J.obj(st, 1024, "file"), J.obj(st, 64, "coordinate system"), J.obj(st, J.lay[10], "mesh")
        J.out = m
        st.ghost.update(file=f.id, cs=Ptr(c, 0), pos=z3.IntVal(0), mid=z3.BoolVal(False), dg=dg)
        return [Ptr(f, 0), Ptr(c, 0), Ptr(m, 0)]

    def post(p):
        yield "a mesh is returned", p.ghost.get("mesh") == (J.out.id, 0)
        sizes = [v for k, v in p.ghost.items() if isinstance(k, tuple) and k[0] == "sizes"]
        yield "every vertex listed has its node", len(sizes) == 1 and sizes[0] == J.Nv
        yield "every cell listed is inserted", p.ghost["count"] == J.Nc if "count" in p.ghost else False
    J.run("read_" + ("dg" if dg else "cg") + "_%d_%d", setup, post)


def job_write(ctx, T, case):
    J = Job(ctx, T, case, f"writer<{NAMES[case[0]]} in {case[1]}D>")
    L = J.lay

    def setup(st):
        n, m, c, t = J.obj(st, 32, "name"), J.obj(st, L[10], "mesh"), J.obj(st, 64, "coordinate system"), J.obj(st, 32, "element type")
        st.ghost[("str", n.id, 0)] = (("sym", "name"),)
        st.ghost[("str", t.id, 0)] = (("sym", "element type"),)

        def load(s, off, ty):
            i, r = split(off, L[6])
            k = r - L[11]
            if ty.size != 8 or k % L[5] or not 0 <= k // L[5] <= J.N:
                raise Unsupported("a part of a cell")
            J.req(s, "only cells of the mesh are read", And(i >= 0, i < J.Nc))
            return J.info(s, "node", i, k // L[5])
        cells = J.array(st, "cells", L[6], load)
        st.ghost.update(cs=Ptr(c, 0), cells=Ptr(cells, 0), numout=z3.IntVal(0), sep=z3.BoolVal(True), nl=z3.BoolVal(True), prec=z3.IntVal(6))
        return [Ptr(n, 0), Ptr(m, 0), Ptr(c, 0), Ptr(t, 0)]

    def post(p):
        g = p.ghost
        ok = g.get("out") is not None and "npoints" in g
        yield "a file is written", ok
        if not ok:
            return
        yield "all tokens are written: the header, the points, the cells", g["numout"] == 4 + J.D * g["npoints"] + J.W * J.Nc
        yield "the last line is ended", g["nl"]
        c = z3.Int("c")
        for r in range(J.N + 1):
            yield f"the point of node {r} of every cell has a number", Implies(And(c >= 0, c < J.Nc), z3.Select(g["has"], PT(c, r)))
    J.run("writer_%d_%d", setup, post)


def job_round(ctx, T, case):
    """the contract of the writer and the contract of the reader, in sequence: the mesh read is the mesh written"""
    N, D = case
    J = Job(ctx, T, case, f"written and read back<{NAMES[N]} in {D}D>")
    n, c, c2 = z3.Ints("n c c2")
    Nc, W = J.Nc, J.W
    file = z3.Function("file", I_, I_)                    # the integers written, at their positions
    coord = z3.Function("coordinate", I_, I_, z3.RealSort())
    filex = z3.Function("file_x", I_, z3.RealSort())      # the coordinates written, at their positions
    has, idx = z3.Function("has", I_, B_), z3.Function("idx", I_, I_)
    B = 4 + D * n
    cell = lambda c: And(c >= 0, c < Nc)
    # (the statements about all points and all cells are instantiated at the cells c and c2 and their points)
    points = [PT(k, r) for k in (c, c2) for r in range(N + 1)]
    pre = [n >= 0, Nc >= 0]
    # the numbering of the points (job writer: the entries of the map are numbered 1 .. n)
    pre += [Implies(has(x), And(idx(x) >= 1, idx(x) <= n, KEY(idx(x)) == x)) for x in points]
    pre += [Implies(cell(k), has(PT(k, r))) for k in (c, c2) for r in range(N + 1)]
    # the file (job writer)
    pre += [file(0) == D, file(1) == n, file(2) == Nc, file(3) == 1]
    pre += [Implies(cell(k), And(file(B + W * k) == TYPE[N], *[file(B + W * k + r + 1) == idx(PT(k, r)) for r in range(N + 1)])) for k in (c, c2)]
    pre += [Implies(And(idx(x) >= 1, idx(x) <= n), And([filex(4 + D * (idx(x) - 1) + e) == coord(KEY(idx(x)), e) for e in range(D)])) for x in points]
    # the mesh read (job reader)
    placed = lambda k, e: filex(4 + D * k + e)
    node = lambda c, r: file(B + W * c + r + 1) - 1
    goals = [("the file written is a file of the format of this dimension", And(file(0) == D, file(1) >= 0, file(2) >= 0, file(3) == 1)),
             ("the mesh read has the cells of the mesh written", file(2) == Nc)]
    for r in range(N + 1):
        goals.append((f"node {r} of a cell listed is a vertex listed", Implies(cell(c), And(file(B + W * c) == TYPE[N], node(c, r) >= 0, node(c, r) < file(1)))))
        for e in range(D):
            goals.append((f"node {r} of a cell has coordinate {e} of the node written", Implies(cell(c), placed(node(c, r), e) == coord(PT(c, r), e))))
        for q in range(N + 1):
            goals.append((f"nodes {r} and {q} of two cells are on the same point if and only if they were",
                          Implies(And(cell(c), cell(c2)), (node(c, r) == node(c2, q)) == (PT(c, r) == PT(c2, q)))))
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(*pre, Nc >= 2, n >= 3, c >= 0, c < Nc, c2 >= 0, c2 < Nc, c != c2)
    if s.check() == z3.unsat:
        raise RuntimeError("contradictory contracts")
    ctx.vacuity_ok()
    for k, g in goals:
        lemma(ctx, f"{J.title}: {k}", pre, g)


def lemma(ctx, name, pre, goal):
    """a consequence of contracts: no code is run"""
    import time
    s = z3.Solver()
    s.set("timeout", 30000)
    s.add(*pre)
    s.add(Not(goal))
    t = time.time()
    r = s.check()
    dt = time.time() - t
    if r == z3.unsat:
        ctx.discharged(name, "z3", where="contracts of the writer and the reader in sequence", t=dt)
    else:
        PS.UNDECIDED.append((name, "lemma: " + str(r)))


def jobs():
    out = [lambda c, T, k=k, dg=dg: job_read(c, T, k, dg) for k in CASES for dg in (False, True)]
    return out + [lambda c, T, k=k: job_write(c, T, k) for k in CASES] + [
        lambda c, T, k=k: job_round(c, T, k) for k in CASES]
