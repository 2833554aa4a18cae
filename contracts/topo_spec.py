"""Contracts on mito::topology.

A simplex (oriented or not, of any order) is an object at an address, its id.  The fields of the objects are arrays
indexed by the id (objects do not overlap: U02), one array per field offset:
  FP(s), OR(s)     footprint and orientation of an oriented simplex
  C(u, i)          i-th facet (an oriented simplex of order N - 1) of an unoriented simplex
  REF(x)           reference counter
The state of the factories of order N: the composition map comp (sorted ids of the footprints of N + 1 facets -> u),
the orientation map ori ((u, orientation) -> s), and the sets of live simplices, liveU and liveS.

Representation invariant RI(N) (pointwise, so that it is assumed and proved instance by instance):
  key   comp(k) = u != 0  =>  u is live and k = key(u), the sorted ids of the footprints of C(u, 0..N)
  u     u is live  =>  comp(key(u)) = u, the C(u, i) are live, their footprints are distinct
  uo    ori(u, o) = s != 0  =>  s is live, FP(s) = u, OR(s) = o
  s     s is live  =>  ori(FP(s), OR(s)) = s, OR(s) is +1 or -1, FP(s) is live
"""
import itertools, re
import z3
from engine import frontend as F, ir, execu
from engine.execu import Ex, State, Ptr, NULL, UNDEF, Obj, Unsupported, PathLimit
from engine.names import parse, base
from .pool_spec import ir_ptr, ir_int, iv, Prover, discharge, parallel
from . import pool_spec as PS

I_ = z3.IntSort()
B_ = z3.BoolSort()


def parity(p):
    return -1 if sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 else 1


def simp(x):
    return z3.simplify(x) if z3.is_expr(x) else x


def split(a):
    """(base, offset) of an address"""
    a = z3.simplify(a)
    if z3.is_add(a):
        k, rest = 0, []
        for x in a.children():
            if z3.is_int_value(x):
                k += x.as_long()
            else:
                rest.append(x)
        if len(rest) == 1:
            return rest[0], k
    return a, 0


def chosen(a):
    """a term of a sum that is one of two numbers, by a condition"""
    if not (z3.is_add(a) or z3.is_mul(a)):
        return None
    for x in a.children():
        if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            return x
        if z3.is_mul(x) or z3.is_add(x):
            t = chosen(x)
            if t is not None:
                return t
    return None


def ite(c, a, b):
    return z3.simplify(z3.If(c, a, b))


def sort_terms(v):
    """the sorted sequence of the terms (sorting network)"""
    v = list(v)
    nets = {1: [], 2: [(0, 1)], 3: [(0, 1), (1, 2), (0, 1)], 4: [(0, 1), (2, 3), (0, 2), (1, 3), (1, 2)]}
    if len(v) not in nets:
        raise Unsupported("sort of a long array")
    for i, j in nets[len(v)]:
        a, b = v[i], v[j]
        v[i], v[j] = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
    return v


def perm_sign(a, b):
    """sign of the permutation that takes b to a; 0 if a is not a permutation of b (b is distinct)"""
    r = z3.IntVal(0)
    for p in itertools.permutations(range(len(a))):
        r = z3.If(z3.And(*[a[i] == b[p[i]] for i in range(len(a))]), z3.IntVal(parity(p)), r)
    return r


class TEx(Ex):
    """objects of the topology live in arrays indexed by id, one per field offset"""

    def field(self, st, off, size):
        k = (off, size)
        a = st.heap.get(k)
        if a is None:
            a = z3.Array(f"F{off}_{size}", I_, I_)
        return a

    def place(self, st, a):
        """(base, offset) of an address; an offset chosen by a condition is decided"""
        b, off = split(a)
        while True:
            t = chosen(b)
            if t is None:
                return b, off
            r = self.decide(st, t.arg(0), None)
            b, off = split(z3.substitute(a, (t, t.arg(1 if r else 2))))
            a = z3.simplify(b + off)

    def flat_load(self, st, a, ty, size):
        b, off = self.place(st, a)
        if off == 0 and size == 8:
            vt = st.ghost.get("vtables", {}).get(b.get_id())
            if vt is not None and (0, 8) not in st.heap:
                o = self.gobj(vt[0])
                self.init_global(st, o)
                return Ptr(o, 16)
        kn = st.ghost.get("known")
        if kn and (off, size) not in st.heap:
            v = kn.get((off, size, b.get_id()))
            if v is not None:
                bs = st.ghost.get("bools")
                v = v[0]
                if bs and not z3.is_const(v):
                    v = z3.simplify(z3.substitute(v, *bs))
                if z3.is_int_value(v):
                    v = v.as_long()
                    return self.from_int(st, v) if ty.kind == "ptr" else v % (1 << ty.bits)
                return v
        v = z3.simplify(z3.Select(self.field(st, off, size), b))
        if z3.is_int_value(v):
            v = v.as_long()
            return self.from_int(st, v) if ty.kind == "ptr" else v % (1 << ty.bits)
        return v

    def flat_store(self, st, a, v, ty):
        b, off = self.place(st, a)
        if off == 0 and ty.kind == "ptr" and isinstance(v, Ptr) and v.obj is not None and v.obj.name.startswith("g:_ZTV"):
            return                                          # the dynamic type: see dynamic_type
        if isinstance(v, (Ptr, execu.FuncPtr)):
            v = self.to_int(v)
        if v is UNDEF:
            v = z3.FreshConst(I_, "undef")
        if isinstance(v, int):
            v = execu.sgn(v, ty.bits) if ty.kind == "int" and ty.bits > 1 else v
            v = z3.IntVal(v)
        if z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        k = (off, ty.size)
        if k not in st.heap and st.ghost.get("known"):
            # names of the fields become facts about the array
            f = self.field(st, off, ty.size)
            st.pc += [z3.Select(f, x) == w for (o, n, _), (w, x) in st.ghost["known"].items() if (o, n) == k]
        st.heap[k] = z3.Store(self.field(st, off, ty.size), b, v)

    def decide(self, st, cond, work):
        if z3.is_expr(cond):
            # ids known not to be null
            bs = st.ghost.get("bools")
            if bs:
                cond = z3.substitute(cond, *bs)
            c = z3.simplify(cond)
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            n = False
            while z3.is_not(c):
                c, n = c.arg(0), not n
            if z3.is_eq(c):
                x, y = c.arg(0), c.arg(1)
                for z in (x, y):
                    if z3.is_app_of(z, z3.Z3_OP_ITE) and z3.is_const(z.arg(0)):
                        self.decide(st, z.arg(0), work)
                        return self.decide(st, cond, work)
                if z3.is_int_value(x):
                    x, y = y, x
                if z3.is_int_value(y) and y.as_long() == 0 and x.get_id() in st.ghost.get("nonnull", ()):
                    return n
                apart = st.ghost.get("apart")
                if apart:
                    i, j = apart.get(x.get_id()), apart.get(y.get_id())
                    if i is not None and j is not None and i[0] == j[0] and i[1] is not j[1]:
                        return n
            key = (c.get_id(),)
            hit = st.ghost.get("decided", {}).get(key)
            if hit is not None:
                return hit[0] != n
            r = Ex.decide(self, st, cond, work)
            if z3.is_const(c) and z3.is_bool(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                st.ghost["bools"] = st.ghost.get("bools", ()) + ((c, z3.BoolVal(r != n)),)
            d = dict(st.ghost.get("decided", {}))
            d[key] = (r != n, c)
            st.ghost["decided"] = d
            return r
        return Ex.decide(self, st, cond, work)


class Snap:
    """the state of the topology at a point of the execution"""

    def __init__(self, T, st):
        T.sync(st)
        self.T, self.heap = T, dict(st.heap)
        self.maps = {k: v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "map"}
        self.live = dict(st.ghost["live"])
        self.known = st.ghost.get("known") or {}

    def f(self, off, size):
        return self.heap.get((off, size), z3.Array(f"F{off}_{size}", I_, I_))

    def at(self, off, size, x):
        if self.known and (off, size) not in self.heap:
            v = self.known.get((off, size, z3.simplify(x).get_id()))
            if v is not None:
                return v[0]
        return z3.Select(self.f(off, size), x)

    def FP(self, s):
        return self.at(self.T.o_fp, 8, s)

    def OR(self, s):
        return self.at(self.T.o_or, 4, s)

    def C(self, u, i):
        return self.at(self.T.o_c + 8 * i, 8, u)

    def REF(self, x):
        return z3.Select(self.f(self.T.o_ref, 4), x)

    def fps(self, N, u):
        return [self.FP(self.C(u, i)) for i in range(N + 1)]

    def key(self, N, u):
        return sort_terms(self.fps(N, u))

    def get(self, kind, N, key):
        name, upd = self.maps[("map", kind, N)]
        return map_get(name, upd, key)

    def comp(self, N, key):
        return self.get("comp", N, key)

    def ori(self, N, u, o):
        return self.get("ori", N, [o, u])

    def L(self, kind, N, x):
        return z3.Select(self.live[(kind, N)], x)

    # --- the representation invariant, pointwise
    def ri_key(self, N, k):
        u = self.comp(N, k)
        return z3.Implies(u != 0, z3.And(self.L("u", N, u), u > 0, *[a == b for a, b in zip(self.key(N, u), k)]))

    def ri_u(self, N, u):
        return z3.Implies(self.L("u", N, u), z3.And(
            u > 0, self.comp(N, self.key(N, u)) == u, *[self.L("s", N - 1, self.C(u, i)) for i in range(N + 1)],
            *[self.C(u, i) > 0 for i in range(N + 1)], *[x > 0 for x in self.fps(N, u)], z3.Distinct(*self.fps(N, u))))

    def ri_uo(self, N, u, o):
        s = self.ori(N, u, o)
        return z3.Implies(s != 0, z3.And(self.L("s", N, s), s > 0, self.FP(s) == u, self.OR(s) == o))

    def ri_s(self, N, s):
        return z3.Implies(self.L("s", N, s), z3.And(
            s > 0, self.FP(s) > 0, self.L("u", N, self.FP(s)), self.ori(N, self.FP(s), self.OR(s)) == s,
            z3.Or(self.OR(s) == 1, self.OR(s) == -1)))


def map_get(name, upd, key):
    f = z3.Function(name, *[I_] * len(key), I_)
    v = f(*key)
    for k, x in upd:
        v = z3.If(z3.And(*[a == b for a, b in zip(k, key)]), x, v)
    return v


class Topo:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("topology.cc"), "O0"))
        e = Ex(self.mod)

        def lay(name, i):
            p = e.run(self.mod.funcs[name], [i])
            if len(p) != 1 or not isinstance(p[0].retval, int):
                raise Unsupported("layout of the classes")
            return p[0].retval
        self.o_fp, self.o_or, self.o_ref = lay("factory_layout_1", 6), lay("factory_layout_1", 7), lay("factory_layout_1", 10)
        self.o_c = lay("simplex_layout_1", 1)
        self.fac = {}
        for N in range(4):
            L = [lay(f"factory_layout_{N}", i) for i in range(12)]
            if L[6] != self.o_fp or L[7] != self.o_or or L[10] != self.o_ref or L[11] != self.o_ref:
                raise Unsupported("layout of the classes")
            self.fac[N] = dict(size=L[0], sf=L[1], ori=L[3], os=L[8], us=L[9], sfsize=L[5])
            if N:
                self.fac[N]["comp"] = lay(f"simplex_layout_{N}", 0)
                if lay(f"simplex_layout_{N}", 1) != self.o_c:
                    raise Unsupported("layout of the classes")
        self.top = [lay("topology_layout", i) for i in range(5)]

    # ------------------------------------------------------------ executor and states
    def ex(self, refs=False, contracts=()):
        ex = TEx(self.mod, max_steps=400000, max_paths=2000)
        ex.feas_timeout = 3000
        ex.objbyid = {}
        ex.refs = refs
        ex.instances = True
        ex.lazy_sets = False
        ex.topo = self
        ex.contracts = dict(contracts)
        ex.patterns.append((lambda d, f: True, self.dispatch))
        return ex

    def state(self, ex):
        st = State()
        st.heap = {}
        st.ghost["live"] = {(k, N): z3.Array(f"live_{k}{N}", I_, B_) for k in "us" for N in range(4)}
        st.ghost["places"] = {}
        for N in range(4):
            for k in ("comp", "ori"):
                st.ghost[("map", k, N)] = (f"{k}{N}", ())
        return st

    def place(self, st, obj, N, off=0, oriented=True):
        """the factory of order N is at (obj, off)"""
        f = self.fac[N]
        pl = dict(st.ghost["places"])
        sf = off + (f["sf"] if oriented else 0)
        if N:
            pl[(obj.id, sf + f["comp"])] = ("comp", N)
        if oriented:
            pl[(obj.id, off + f["ori"])] = ("ori", N)
        st.ghost["places"] = pl

    def nonnull(self, st, *terms):
        d = dict(st.ghost.get("nonnull", {}))
        for t in terms:
            d[z3.simplify(t).get_id()] = t
            st.pc.append(t > 0)
        st.ghost["nonnull"] = d

    def dynamic_type(self, st, x, N, oriented):
        """the dynamic type of a live simplex (its constructor stored the address of this table)"""
        n = f"_ZTVN4mito8topology{'15Oriented' if oriented else '7'}SimplexILi{N}EEE"
        d = dict(st.ghost.get("vtables", {}))
        d[z3.simplify(x).get_id()] = (n, x)
        st.ghost["vtables"] = d

    def apart(self, st, *terms):
        """terms known to be pairwise different"""
        d = dict(st.ghost.get("apart", {}))
        g = len(d)
        for t in terms:
            d[t.get_id()] = (g, t)
        st.ghost["apart"] = d

    def out(self, ex, st, n=8, name="out"):
        o = ex.new_obj(st, name, n, "param")
        ex.objbyid[o.id] = o
        return o

    def handles(self, ex, st, terms, name="arg"):
        """an array of handles"""
        o = ex.new_obj(st, name, 8 * len(terms), "param")
        ex.objbyid[o.id] = o
        for i, t in enumerate(terms):
            st.cells(o, True)[8 * i] = (8, t)
        return o

    def outv(self, ex, st, o, i=0):
        c = st.cells(o).get(8 * i)
        if c is None or c[0] != 8 or c[1] is UNDEF:
            raise Unsupported("no result")
        v = c[1]
        if isinstance(v, Ptr):
            v = ex.to_int(v)
        return z3.IntVal(v) if isinstance(v, int) else v

    # ------------------------------------------------------------ handlers
    def dispatch(self, ex, st, a, I):
        fn = ex.cur_fn
        nm = fn.name
        k = ex.hcache.get(("parse", nm))
        if k is None:
            d = ex.dname(fn)
            k = (d,) + (parse(d) or ("", "", ""))
            ex.hcache[("parse", nm)] = k
        d, cls, m, args = k
        b = base(cls)
        if nm.startswith("_ZSt18_Rb_tree_increment"):
            return self.rb_next(ex, st, a[0])
        if nm.startswith("_ZSt18_Rb_tree_decrement"):
            return self.rb_prev(ex, st, a[0])
        if b == "mito::utilities::SharedPointer":
            return self.handle(ex, st, cls, m, args, a)
        if b == "mito::utilities::SegmentedAllocator":
            return self.allocator(ex, st, cls, m, args, a, I)
        if b == "std::map" and cls.endswith(">"):
            return self.map(ex, st, cls, m, args, a)
        if b == "std::set" and cls.endswith(">"):
            return self.sset(ex, st, cls, m, args, a)
        if b == "std::unordered_map" and cls.endswith(">"):
            return self.umap(ex, st, cls, m, args, a)
        if d.startswith("int mito::math::permutation_sign<"):
            return self.permutation_sign(ex, st, d, a)
        if ("std::ranges::__sort_fn::operator()<std::array<" in d or d.startswith("void std::sort<")):
            return self.sort(ex, st, d, a)
        for pred, h in ex.contracts.items():
            if re.search(pred, d):
                return h(ex, st, d, a, I)
        return NotImplemented

    def elems(self, ex, st, p, n, ptr=False):
        out = []
        for i in range(n):
            v = ex.load(st, ex.padd(p, 8 * i), ir_ptr() if ptr else ir_int(64))
            if isinstance(v, Ptr):
                v = ex.to_int(v)
            out.append(z3.IntVal(v) if isinstance(v, int) else v)
        return out

    # handles (contract of U01: a handle is a pointer; copies and destruction keep the counter)
    def acquire(self, ex, st, p, k):
        if not ex.refs:
            return
        p = ex.to_int(p) if isinstance(p, Ptr) else p
        if isinstance(p, int):
            return
        F_ = ex.field(st, self.o_ref, 4)
        st.heap[(self.o_ref, 4)] = z3.Store(F_, p, z3.Select(F_, p) + k)

    def handle(self, ex, st, cls, m, args, a):
        if m == "SharedPointer":
            if len(a) == 1:
                ex.store(st, a[0], NULL, ir_ptr())
                return None
            if "SharedPointer" in args:
                v = ex.load(st, a[1], ir_ptr())
                ex.store(st, a[0], v, ir_ptr())
                if "&&" in args:
                    ex.store(st, a[1], NULL, ir_ptr())
                else:
                    self.acquire(ex, st, v, 1)
                return None
            ex.store(st, a[0], a[1], ir_ptr())
            self.acquire(ex, st, a[1], 1)
            return None
        if m == "~SharedPointer":
            v = ex.load(st, a[0], ir_ptr())
            self.acquire(ex, st, v, -1)
            return None
        if m == "operator=":
            v = ex.load(st, a[1], ir_ptr())
            w = ex.load(st, a[0], ir_ptr())
            same = isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0] == a[1]
            if same:
                return a[0]
            self.acquire(ex, st, w, -1)
            ex.store(st, a[0], v, ir_ptr())
            if "&&" in args:
                ex.store(st, a[1], NULL, ir_ptr())
            else:
                self.acquire(ex, st, v, 1)
            return a[0]
        if m == "reset":
            self.acquire(ex, st, ex.load(st, a[0], ir_ptr()), -1)
            ex.store(st, a[0], NULL, ir_ptr())
            return None
        return NotImplemented

    # pools (contract of U02): a place that no live resource has
    @staticmethod
    def kind(cls):
        m = re.search(r"mito::topology::(Oriented)?Simplex<(\d)>", cls)
        if not m:
            raise Unsupported("pool of " + cls)
        return ("s" if m.group(1) else "u", int(m.group(2)))

    def allocator(self, ex, st, cls, m, args, a, I):
        if m == "location_for_placement":
            n = z3.FreshConst(I_, "new")
            self.nonnull(st, n)
            for L in st.ghost["live"].values():
                st.pc.append(z3.Not(z3.Select(L, n)))
            for o in st.ghost.get("new", ()):
                st.pc.append(n != o)
            st.ghost["new"] = st.ghost.get("new", ()) + (n,)
            if I.ty.kind == "struct":
                return [n, z3.FreshBool("fresh")]
            raise Unsupported("result of location_for_placement")
        k = self.kind(cls)
        if m == "insert":
            live = dict(st.ghost["live"])
            live[k] = z3.Store(live[k], a[1], z3.BoolVal(True))
            st.ghost["live"] = live
            st.ghost["made"] = st.ghost.get("made", ()) + ((k, a[1]),)
            return None
        if m == "erase":
            live = dict(st.ghost["live"])
            st.obls.append(("only live simplices are erased", z3.Select(live[k], a[1])))
            live[k] = z3.Store(live[k], a[1], z3.BoolVal(False))
            st.ghost["live"] = live
            st.ghost["erased"] = st.ghost.get("erased", ()) + ((k, a[1]),)
            return None
        raise Unsupported(f"SegmentedAllocator::{m}")

    def sort(self, ex, st, d, a):
        m = re.search(r"std::array<unsigned long, (\d+)ul>", d)
        if d.startswith("void std::sort<unsigned long*>(unsigned long*, unsigned long*)") or "__sort_fn::operator()<unsigned long*, unsigned long*, std::ranges::less, std::identity>" in d:
            p, q = a[-2:] if d.startswith("void std::sort") else a[1:3]
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is q.obj and isinstance(p.off, int) and isinstance(q.off, int)):
                return NotImplemented
            n = (q.off - p.off) // 8
        elif m and "std::ranges::less, std::identity" in d and "__sort_fn" in d:
            n, p = int(m.group(1)), a[1]
        else:
            return NotImplemented
        for i, v in enumerate(sort_terms(self.elems(ex, st, p, n))):
            ex.store(st, ex.padd(p, 8 * i), z3.simplify(v), ir_int(64))
        return ex.padd(p, 8 * n) if "__sort_fn" in d else None

    def permutation_sign(self, ex, st, d, a):
        m = re.search(r"permutation_sign<std::array<.*, (\d+)ul>>\(", d)
        if not m:
            return NotImplemented
        n = int(m.group(1))
        x, y = self.elems(ex, st, a[0], n, True), self.elems(ex, st, a[1], n, True)
        r = z3.FreshConst(I_, "sign")
        st.pc.append(z3.Implies(z3.Distinct(*y), r == perm_sign(x, y)))
        return r

    # maps: partial functions of the key; 0 where there is no entry
    def mapkey(self, ex, st, cls, p):
        m = re.match(r"std::map<std::array<unsigned long, (\d+)ul>, unsigned long,", cls)
        if m:
            n = int(m.group(1))
            return self.elems(ex, st, p, n), 8 * n
        if cls.startswith("std::map<std::tuple<unsigned long, int>, unsigned long,"):
            o = ex.load(st, p, ir_int(32))
            u = ex.load(st, ex.padd(p, 8), ir_ptr())
            return [ex.ival(o, 32) if not isinstance(o, int) else z3.IntVal(execu.sgn(o, 32)), self.num(ex, u)], 16
        raise Unsupported(cls)

    def num(self, ex, v):
        if isinstance(v, Ptr):
            v = ex.to_int(v)
        return z3.IntVal(v) if isinstance(v, int) else v

    def storekey(self, ex, st, o, off, cls, key):
        c = st.cells(o, True)
        if "std::tuple" in cls.split(", unsigned long, std::less")[0]:
            c[off] = (4, key[0])
            c[off + 8] = (8, key[1])
            return off + 16
        for i, k in enumerate(key):
            c[off + 8 * i] = (8, k)
        return off + 8 * len(key)

    def node(self, ex, st, cls, key, v, gk=None):
        o = ex.new_obj(st, "node", 32 + 64, "ghost")
        ex.objbyid[o.id] = o
        e = self.storekey(ex, st, o, 32, cls, key)
        st.cells(o, True)[e] = (8, v)
        st.ghost[("node", o.id)] = key
        st.ghost["mapnodes"] = st.ghost.get("mapnodes", ()) + ((gk, tuple(key), o, e, v),)
        return Ptr(o, 0)

    def sync(self, st, end=False):
        """values written through references and iterators of the maps"""
        nodes = st.ghost.get("mapnodes", ())
        for i, (gk, key, o, e, old) in enumerate(nodes):
            new = st.cells(o, False)[e][1]
            new = z3.IntVal(new) if isinstance(new, int) else new
            if isinstance(new, Ptr):
                new = z3.IntVal(0) if new == NULL else self.cur_ex.to_int(new)
            if new is old or (z3.is_expr(old) and z3.is_expr(new) and new.eq(old)):
                if end and z3.is_int_value(old) and old.as_long() == 0:
                    st.obls.append(("a null id is not registered", z3.BoolVal(False)))
                continue
            fresh = z3.is_int_value(old) and old.as_long() == 0
            for j, (gk2, key2, o2, e2, old2) in enumerate(nodes):
                if j != i and gk2 == gk:
                    if all(x.eq(y) for x, y in zip(key, key2)):
                        st.cells(o2, True)[e2] = (8, new)
                    elif not fresh:
                        raise Unsupported("a write through an iterator, next to other iterators")
            name, upd = st.ghost[gk]
            st.obls.append(("a null id is not registered", new != 0))
            st.ghost[gk] = (name, upd + ((key, new),))
            st.ghost["mapops"] = st.ghost.get("mapops", ()) + (("insert", gk[1], gk[2], key, new),)
            st.ghost["mapnodes"] = tuple((g, k, oo, ee, new if oo is o or (g == gk and all(x.eq(y) for x, y in zip(k, key))) else vv) for g, k, oo, ee, vv in st.ghost["mapnodes"])
            nodes = st.ghost["mapnodes"]

    def map(self, ex, st, cls, m, args, a):
        if m in ("map", "~map"):
            raise Unsupported("construction of a map")
        this = a[0]
        pl = st.ghost["places"].get((this.obj.id, this.off)) if isinstance(this, Ptr) and this.obj is not None else None
        if pl is None:
            return NotImplemented
        kind, N = pl
        gk = ("map", kind, N)
        self.cur_ex = ex
        self.sync(st)
        name, upd = st.ghost[gk]
        if m == "end":
            return Ptr(this.obj, this.off + 8)
        if m in ("find", "contains", "count", "at", "insert", "emplace", "try_emplace", "erase", "operator[]", "insert_or_assign"):
            if m in ("emplace",) and len(a) != 2 and "piecewise" in args:
                raise Unsupported("map::emplace")
            if m == "erase" and "iterator" in args:
                p = a[1]
                key = st.ghost.get(("node", p.obj.id))
                if key is None:
                    raise Unsupported("erase at an iterator")
            else:
                key, ks = self.mapkey(ex, st, cls, a[1])
            v = z3.simplify(map_get(name, upd, key))
            if ex.instances:
                self.instances(ex, st, kind, N, key, v)
            if m == "erase":
                present = z3.simplify(v != 0)
                st.ghost[gk] = (name, upd + ((tuple(key), z3.IntVal(0)),))
                st.ghost["mapops"] = st.ghost.get("mapops", ()) + ((m, kind, N, tuple(key), None),)
                return ite(present, z3.IntVal(1), z3.IntVal(0)) if "iterator" not in args else Ptr(this.obj, this.off + 8)
            present = ex.decide(st, v != 0, None)
            if m == "find":
                return self.node(ex, st, cls, key, v, gk) if present else Ptr(this.obj, this.off + 8)
            if m in ("contains", "count"):
                return int(present)
            if m == "at":
                if not present:
                    st.status, st.retval = "throw", "map::at"
                    return None
                n = self.node(ex, st, cls, key, v, gk)
                return Ptr(n.obj, 32 + ks)
            if m == "operator[]":
                n = self.node(ex, st, cls, key, v if present else z3.IntVal(0), gk)
                return Ptr(n.obj, 32 + ks)
            if m == "insert":
                x = self.num(ex, ex.load(st, ex.padd(a[1], ks), ir_ptr()))
            elif m in ("emplace", "try_emplace", "insert_or_assign") and len(a) == 3:
                x = self.num(ex, ex.load(st, a[2], ir_ptr()))
            else:
                raise Unsupported(f"map::{m}")
            if not present or m == "insert_or_assign":
                st.obls.append(("a null id is not registered", x != 0))
                st.ghost[gk] = (name, upd + ((tuple(key), x),))
                st.ghost["mapops"] = st.ghost.get("mapops", ()) + (("insert", kind, N, tuple(key), x),)
                v = x
            return [self.node(ex, st, cls, key, v, gk), int(not present)]
        raise Unsupported(f"map::{m}")

    def instances(self, ex, st, kind, N, key, v):
        """instances of the invariant at a key (of the initial state, which S0 is)"""
        S = st.ghost["S0"]
        if kind == "comp":
            st.pc += [S.ri_key(N, key), S.ri_u(N, S.comp(N, key))]
        else:
            st.pc += [S.ri_uo(N, key[1], key[0])]

    # unordered_map<id, int>: a list of nodes of the real layout, in order of insertion
    def umap(self, ex, st, cls, m, args, a):
        if not re.match(r"std::unordered_map<unsigned long, (unsigned )?(int|long)( long)?,", cls):
            raise Unsupported(cls)
        this = a[0]
        g = ("umap", this.obj.id, this.off)
        if m in ("unordered_map",):
            if len(a) > 1 and not isinstance(a[1], int):
                raise Unsupported("construction of an unordered_map from another")
            st.ghost[g] = ()
            return None
        if m == "~unordered_map":
            return None
        nodes = st.ghost.get(g)
        if nodes is None:
            raise Unsupported("unordered_map out of sight")
        if m == "size":
            return len(nodes)
        if m == "empty":
            return int(not nodes)
        if m in ("begin", "cbegin"):
            return nodes[0][1] if nodes else NULL
        if m in ("end", "cend"):
            return NULL
        if m in ("reserve", "rehash", "clear"):
            if m == "clear":
                st.ghost[g] = ()
            return None
        if m in ("operator[]", "find", "count", "contains", "at"):
            k = self.elems(ex, st, a[1], 1)[0]
            hit = None
            for x, p in nodes:
                if ex.decide(st, x == k, None):
                    hit = p
                    break
            if m in ("count", "contains"):
                return int(hit is not None)
            if m == "find":
                return hit if hit is not None else NULL
            if hit is None and m == "at":
                st.status, st.retval = "throw", "unordered_map::at"
                return None
            if hit is None:
                o = ex.new_obj(st, "node", 32, "ghost")
                ex.objbyid[o.id] = o
                c = st.cells(o, True)
                c[0], c[8], c[16] = (8, NULL), (8, k), (8, 0) if "unsigned long, long" in cls or "unsigned long, unsigned long" in cls else (4, 0)
                hit = Ptr(o, 0)
                if nodes:
                    st.cells(nodes[-1][1].obj, True)[0] = (8, hit)
                st.ghost[g] = nodes + ((k, hit),)
            return Ptr(hit.obj, 16)
        raise Unsupported(f"unordered_map::{m}")

    # std::set of handles (ordered by id): the elements in order of insertion; iterated in increasing order
    def sset(self, ex, st, cls, m, args, a):
        if not re.match(r"std::set<(mito::utilities::SharedPointer<|unsigned long,|mito::topology::)", cls):
            raise Unsupported(cls)
        this = a[0]
        if not isinstance(this, Ptr) or this.obj is None:
            raise Unsupported("set out of sight")
        g = ("sset", this.obj.id, this.off)
        head = Ptr(this.obj, this.off + 8)
        if m == "set":
            if len(a) == 1:
                st.ghost[g] = ()
                return None
            if len(a) == 2 and "std::set<" in args and isinstance(a[1], Ptr):
                st.ghost[g] = st.ghost[("sset", a[1].obj.id, a[1].off)]
                if "&&" in args:
                    st.ghost[("sset", a[1].obj.id, a[1].off)] = ()
                return None
            raise Unsupported("construction of a set from a range")
        el = st.ghost.get(g)
        st.ghost[("setobj", g)] = this.obj
        if el is None:
            raise Unsupported("set out of sight")

        ver = st.ghost.get(("setver", g), 0)

        def node(x):
            k = ("setnode", g, x.get_id())
            if k not in st.ghost:
                o = ex.new_obj(st, "node", 40, "ghost")
                ex.objbyid[o.id] = o
                st.cells(o, True)[32] = (8, x)
                st.ghost[("nodeof", o.id)] = (g, x)
                st.ghost[k] = (Ptr(o, 0), x)
            return st.ghost[k][0]

        def put(el):
            st.ghost[g] = el
            st.ghost[("setver", g)] = ver + 1

        rest = st.ghost.get(("rest", this.obj.id, this.off))     # an arbitrary set, of which only the membership is known

        def find(x):
            for y in el:
                if ex.decide(st, x == y, None):
                    return y
            if rest is not None and ex.decide(st, rest(x), None):
                return x
            return None
        if rest is not None and m not in ("insert", "emplace", "count", "contains", "end", "cend"):
            raise Unsupported(f"set::{m} of an arbitrary set")
        if m == "~set":
            for x in el:
                self.acquire(ex, st, x, -1)
            return None
        if m in ("size", "empty"):
            return len(el) if m == "size" else int(not el)
        if m in ("end", "cend"):
            return head
        if m in ("begin", "cbegin"):
            if not el:
                return head
            order = []
            if ex.lazy_sets and 1 < len(el) <= 4:
                order, el = sort_terms(el), ()
            for x in el:
                k = 0
                while k < len(order) and ex.decide(st, order[k] < x, None):
                    k += 1
                order.insert(k, x)
            ns = [node(z3.simplify(x)) for x in order]
            for x, y in zip(ns, ns[1:] + [head]):
                st.ghost[("setnext", x.obj.id)] = (ver, y)
            for x, y in zip(ns, [None] + ns):
                st.ghost[("setprev", x.obj.id)] = (ver, y)
            st.ghost[("setprev", head.obj.id, head.off)] = (ver, ns[-1])
            return ns[0]
        if m == "clear":
            for x in el:
                self.acquire(ex, st, x, -1)
            put(())
            return None
        if m in ("insert", "emplace", "find", "count", "contains", "erase", "lower_bound", "emplace_hint"):
            hint = m == "emplace_hint" or (m == "insert" and len(a) == 3)
            if m == "erase" and "iterator" in args:
                raise Unsupported("erase at an iterator")
            k = a[2] if hint else a[1]
            if m == "insert" and ("initializer_list" in args or (len(a) == 3 and "const_iterator" not in args and "_Rb_tree_const_iterator" not in args)):
                raise Unsupported("insertion of a range")
            x = self.num(ex, ex.load(st, k, ir_ptr()))
            y = find(x)
            if m == "find":
                return node(y) if y is not None else head
            if m in ("count", "contains"):
                return int(y is not None)
            if m == "erase":
                if y is not None:
                    put(tuple(z for z in el if z is not y))
                    self.acquire(ex, st, y, -1)
                return int(y is not None)
            if m in ("insert", "emplace", "emplace_hint"):
                if y is None:
                    put(el + (x,))
                    if "&&" in args and "const&" not in args:
                        ex.store(st, k, NULL, ir_ptr())
                    else:
                        self.acquire(ex, st, x, 1)
                n = node(x)
                return n if hint else [n, int(y is None)]
        raise Unsupported(f"set::{m}")

    def rb_next(self, ex, st, x):
        return self.rb_step(ex, st, x, "setnext")

    def rb_prev(self, ex, st, x):
        return self.rb_step(ex, st, x, "setprev")

    def rb_step(self, ex, st, x, d):
        """the next or the previous iterator of a set: as begin() left it or, if the set was changed since, the nearest element"""
        if not isinstance(x, Ptr) or x.obj is None:
            raise Unsupported("step of this iterator")
        own = st.ghost.get(("nodeof", x.obj.id))
        g = own[0] if own else ("sset", x.obj.id, x.off - 8)
        y = st.ghost.get((d, x.obj.id) if own else (d, x.obj.id, x.off))
        if y is not None and y[0] == st.ghost.get(("setver", g), 0):
            if y[1] is None:
                raise Unsupported("step before the first element")
            return y[1]
        if not own or ("rest",) + g[1:] in st.ghost:
            raise Unsupported("step of this iterator")
        v, up, best = own[1], d == "setnext", None
        if not any(v.eq(z) for z in st.ghost[g]):
            raise Unsupported("step of an iterator of an element that was erased")
        for z in st.ghost[g]:
            if z.eq(v):
                continue
            if ex.decide(st, v < z if up else z < v, None) and (best is None or ex.decide(st, z < best if up else best < z, None)):
                best = z
        if best is None:
            if up:
                return Ptr(st.ghost[("setobj", g)], g[2] + 8)
            raise Unsupported("step before the first element")
        k = ("setnode", g, best.get_id())
        if k in st.ghost:
            return st.ghost[k][0]
        o = ex.new_obj(st, "node", 40, "ghost")
        ex.objbyid[o.id] = o
        st.cells(o, True)[32] = (8, best)
        st.ghost[("nodeof", o.id)] = (g, best)
        st.ghost[k] = (Ptr(o, 0), best)
        return Ptr(o, 0)


# ---------------------------------------------------------------- the contracts of the factories
class Job:
    """obligations of one function"""

    def __init__(self, ctx, T, title):
        self.ctx, self.T, self.title = ctx, T, title

    def run(self, setup, post, refs=False, contracts=(), pre_check=True):
        ctx, T = self.ctx, self.T
        ex = T.ex(refs, contracts)
        st = T.state(ex)
        pv = self.pv = Prover(ctx, ex)
        try:
            fname, args = setup(ex, st, self)
            st.ghost["S0"] = self.S0 = Snap(T, st)
            for f in getattr(self, "facts", ()):
                st.pc.append(f(self.S0))
            if pre_check and pv.valid(st, z3.BoolVal(False), 3000):
                ctx.failed(f"{self.title}: precondition is satisfiable", "the precondition is contradictory", where=self.title)
                return
            ctx.vacuity_ok()
            cases = getattr(self, "cases", None)
            if cases is None:
                paths = ex.run(T.mod.funcs[fname], args, st)
            else:
                paths = []
                for c in cases:
                    s = st.fork()
                    c(s)
                    paths += ex.run(T.mod.funcs[fname], args, s)

            def p(ex, s, A):
                n = len(s.obls)
                T.sync(s, True)
                yield from s.obls[n:]
                S = Snap(T, s)
                yield from post(ex, s, S, self)
            if cases != []:
                discharge(ctx, ex, pv, paths, self.title, None, p)
        except (Unsupported, PathLimit) as e:
            PS.unsupported(ctx, self.title, e)


ONLY = None


def frame(J, S, st):
    """every simplex that was live is live and has its fields"""
    S0, T = J.S0, J.T
    x = z3.Int("x_frame")
    for k in "us":
        for N in range(4):
            if S.live[(k, N)].eq(S0.live[(k, N)]):
                continue
            yield "every simplex that existed still exists", z3.Implies(S0.L(k, N, x), S.L(k, N, x))
    anylive = z3.Or(*[S0.L(k, N, x) for k in "us" for N in range(4)])
    for (off, size), a in S.heap.items():
        a0 = S0.f(off, size)
        if off not in (0, T.o_ref) and not a.eq(a0):
            yield "no simplex that existed is changed", z3.Implies(anylive, z3.Select(a, x) == z3.Select(a0, x))


def same_maps(J, S):
    return z3.BoolVal(all(S.maps[k] == J.S0.maps[k] for k in S.maps) and all(S.live[k].eq(J.S0.live[k]) for k in S.live))


def comp_args(ex, st, J, N, distinct=True):
    """a composition: N + 1 live oriented simplices of order N - 1 with distinct footprints"""
    T = J.T
    c = [z3.Int(f"c{i}") for i in range(N + 1)]
    T.nonnull(st, *c)
    J.c = c
    J.carr = T.handles(ex, st, c, "composition")
    S = Snap(T, st)
    J.fps = [S.FP(x) for x in c]
    T.nonnull(st, *J.fps)
    for x in c:
        st.pc.append(S.L("s", N - 1, x))
    st.pc.append(z3.Distinct(*J.fps))
    return Ptr(J.carr, 0)


def factory(ex, st, J, N, oriented=True):
    T = J.T
    f = T.fac[N]
    o = ex.new_obj(st, "factory", f["size"] if oriented else f["sfsize"], "param")
    ex.objbyid[o.id] = o
    T.place(st, o, N, 0, oriented)
    return Ptr(o, 0)


def ri_post(J, S, N, st, comp=True, ori=True):
    """RI(N) after, from instances of RI(N) before"""
    S0 = J.S0
    k = [z3.Int(f"k{i}_any") for i in range(N + 1)]
    u, o, s = z3.Ints("u_any o_any s_any")
    if comp and N:
        st.pc += [S0.ri_key(N, k), S0.ri_u(N, S0.comp(N, k)), S0.ri_u(N, u), S0.ri_key(N, S0.key(N, u))]
        yield "invariant: the composition map takes a key to the simplex with that key", S.ri_key(N, k)
        yield "invariant: every simplex is registered under its key", S.ri_u(N, u)
    if ori:
        st.pc += [S0.ri_uo(N, u, o), S0.ri_s(N, s), S0.ri_s(N, S0.ori(N, u, o))]
        yield "invariant: the orientation map takes (footprint, orientation) to the simplex that has them", S.ri_uo(N, u, o)
        yield "invariant: every oriented simplex is registered under its footprint and orientation", S.ri_s(N, s)


def job_sf_simplex(ctx, T, N):
    J = Job(ctx, T, f"SimplexFactory<{N}>::simplex(composition)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N, False)
        c = comp_args(ex, st, J, N)
        J.out = T.out(ex, st)
        return f"sf_simplex_{N}", [f, c, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        S0 = J.S0
        u = T.outv(ex, st, J.out)
        key = sort_terms(J.fps)
        was = S0.comp(N, key)
        yield "the simplex has the facets of the composition", z3.And(S.L("u", N, u), *[a == b for a, b in zip(S.key(N, u), key)])
        yield "the simplex registered under this composition is returned if there is one", z3.Implies(was != 0, u == was)
        yield "nothing changes if there is one", z3.Implies(was != 0, same_maps(J, S))
        yield "a new simplex is composed of the facets given, in this order", z3.Implies(
            was == 0, z3.And(z3.Not(S0.L("u", N, u)), *[S.C(u, i) == J.c[i] for i in range(N + 1)]))
        yield from frame(J, S, st)
        yield from ri_post(J, S, N, st, True, False)
    J.run(setup, post)


def job_sf_find(ctx, T, N):
    J = Job(ctx, T, f"SimplexFactory<{N}>::findSimplex(composition)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N, False)
        c = comp_args(ex, st, J, N)
        J.out = T.out(ex, st)
        return f"sf_find_{N}", [f, c, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        yield "the simplex registered under this composition, or null", T.outv(ex, st, J.out) == J.S0.comp(N, sort_terms(J.fps))
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def u_arg(ex, st, J, N):
    T = J.T
    u, o = z3.Ints("u o")
    T.nonnull(st, u)
    J.u, J.o = u, o
    S = Snap(T, st)
    st.pc += [S.L("u", N, u), z3.Or(o == 1, o == -1)]
    J.uarr = T.handles(ex, st, [u], "footprint")
    return Ptr(J.uarr, 0), o


def job_of_make(ctx, T, N):
    J = Job(ctx, T, f"OrientedSimplexFactory<{N}>::orientedSimplex(footprint, orientation)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N)
        u, o = u_arg(ex, st, J, N)
        J.out = T.out(ex, st)
        return f"of_make_{N}", [f, u, o, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        S0 = J.S0
        s = T.outv(ex, st, J.out)
        was = S0.ori(N, J.u, J.o)
        yield "the simplex has the footprint and the orientation given", z3.And(S.L("s", N, s), S.FP(s) == J.u, S.OR(s) == J.o)
        yield "the simplex with this footprint and orientation is returned if there is one", z3.Implies(was != 0, s == was)
        yield "nothing changes if there is one", z3.Implies(was != 0, same_maps(J, S))
        yield "otherwise the simplex is new", z3.Implies(was == 0, z3.Not(S0.L("s", N, s)))
        yield from frame(J, S, st)
        yield from ri_post(J, S, N, st, False, True)
    J.run(setup, post)


def job_of_find(ctx, T, N, exists):
    J = Job(ctx, T, f"OrientedSimplexFactory<{N}>::{'exists' if exists else 'find'}OrientedSimplex(footprint, orientation)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N)
        u, o = u_arg(ex, st, J, N)
        if exists:
            return f"of_exists_{N}", [f, u, o]
        J.out = T.out(ex, st)
        return f"of_find_{N}", [f, u, o, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        s = J.S0.ori(N, J.u, J.o)
        if exists:
            yield "true exactly if an oriented simplex has this footprint and orientation", (iv(st.retval) != 0) == (s != 0)
        else:
            yield "the oriented simplex with this footprint and orientation, or null", T.outv(ex, st, J.out) == s
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post)


def always_valid(ex, st, d, a, I):
    """contract of isValid on a composition that bounds (isValid is verified on its own)"""
    return 1


VALID = {r"^(auto|bool) mito::topology::isValid<[123]>\(": always_valid}


def job_of_comp(ctx, T, N):
    J = Job(ctx, T, f"OrientedSimplexFactory<{N}>::orientedSimplex(composition)")

    def setup(ex, st, J):
        f = factory(ex, st, J, N)
        c = comp_args(ex, st, J, N)
        J.out = T.out(ex, st)
        return f"of_comp_{N}", [f, c, Ptr(J.out, 0)]

    def post(ex, st, S, J):
        S0 = J.S0
        s = T.outv(ex, st, J.out)
        key = sort_terms(J.fps)
        u = S.FP(s)
        wasu = S0.comp(N, key)
        yield "the footprint has the facets of the composition", z3.And(S.L("s", N, s), S.L("u", N, u), *[a == b for a, b in zip(S.key(N, u), key)])
        yield "the footprint registered under this composition is used if there is one", z3.Implies(wasu != 0, u == wasu)
        yield "a new footprint is composed of the facets given, in this order", z3.Implies(
            wasu == 0, z3.And(z3.Not(S0.L("u", N, u)), *[S.C(u, i) == J.c[i] for i in range(N + 1)]))
        yield "the orientation is the sign of the order of the facets with respect to the footprint", S.OR(s) == perm_sign(J.fps, S.fps(N, u))
        yield "the oriented simplex registered is returned if there is one", z3.Implies(
            z3.And(wasu != 0, S0.ori(N, u, S.OR(s)) != 0), s == S0.ori(N, u, S.OR(s)))
        yield from frame(J, S, st)
        yield from ri_post(J, S, N, st, True, True)
    J.run(setup, post, contracts=VALID)


def job_of_existscomp(ctx, T, N, top=False):
    J = Job(ctx, T, f"Topology::exists<{N}>(composition)" if top else f"OrientedSimplexFactory<{N}>::existsOrientedSimplex(composition)")

    def setup(ex, st, J):
        f = topology(ex, st, J) if top else factory(ex, st, J, N)
        c = comp_args(ex, st, J, N)
        return f"{'t' if top else 'of'}_existscomp_{N}", [f, c]

    def post(ex, st, S, J):
        S0 = J.S0
        u = S0.comp(N, sort_terms(J.fps))
        sg = perm_sign(J.fps, S0.fps(N, u))
        yield "true exactly if the oriented simplex with this composition exists", (iv(st.retval) != 0) == z3.And(u != 0, S0.ori(N, u, sg) != 0)
        yield "nothing changes", same_maps(J, S)
    J.run(setup, post, contracts=VALID)


def topology(ex, st, J):
    T = J.T
    o = ex.new_obj(st, "topology", T.top[4], "param")
    ex.objbyid[o.id] = o
    for N in range(4):
        T.place(st, o, N, T.top[N])
    J.top = o
    return Ptr(o, 0)
