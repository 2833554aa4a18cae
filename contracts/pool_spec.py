"""Contracts on mito::utilities: symbolic states of the pool classes, models of the standard containers they use.

Memory of the segments is a flat heap: three z3 arrays (8, 4 and 1 byte accesses) indexed by address.
A slot is a pair (k, i), 0 <= k < number of segments, 0 <= i < segment size; its address is S[k] + es * i.

Class invariant Inv of a SegmentedAllocator (S, KK, II are ghost arrays):
  N >= 1, ns >= 0
  ns = 0  =>  begin = end = end_allocation = null, n_elements = 0, no available location
  ns > 0  =>  begin = S[0], end_allocation = S[ns-1] + N*es, end = S[ns-1] + es*m, 1 <= m <= N
              n_elements = (ns-1)*N + m - (number of available locations)
  for k < ns - 1 the word at S[k] + N*es is S[k+1]
  for k < ns the map of segments has the entry k -> S[k]
  the segments [S[k], S[k] + N*es + 8) are pairwise disjoint, at positive addresses
  the available locations are pairwise distinct slots below the end"""
import os, time
import z3
from engine import frontend as F, ir, execu
from engine.execu import Ex, State, Ptr, NULL, UNDEF, Obj, Unsupported, PathLimit, PUSHED
from engine.names import parse, base
from engine import loops as LP

I_ = z3.IntSort()
B_ = z3.BoolSort()


def AI(nm):
    return z3.Array(nm, I_, I_)


def AB(nm):
    return z3.Array(nm, I_, B_)


EMPTYQ = (AI("q0"), z3.IntVal(0), z3.IntVal(0), z3.K(I_, z3.BoolVal(False)), AI("qt0"))


class Pool:
    """one harness module with the models installed"""
    TYPES = {"r0": ("res", 16), "r3": ("res", 40), "c0": ("cell", 16), "c3": ("cell", 40)}

    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("pool.cc"), "O0"))
        self.native = None
        self.lay = {}

    # ------------------------------------------------------------ executor
    def ex(self):
        ex = Ex(self.mod, max_steps=200000, max_paths=500)
        ex.feas_timeout = 1500
        ex.objbyid = {}
        ex.patterns.append((lambda d, f: True, self.dispatch))
        ex.seg_tables = []
        ex.flat_memcpy = self.flat_memcpy
        return ex

    def layout(self, name):
        if name in self.lay:
            return self.lay[name]
        ex = Ex(self.mod)
        out = {}
        for suffix, n in (("_layout", 16), ("_clayout", 4)):
            fn = self.mod.funcs.get(name + suffix)
            if fn is None:
                continue
            for i in range(n):
                p = ex.run(fn, [i])
                if len(p) != 1 or not isinstance(p[0].retval, int):
                    raise Unsupported("layout of the classes")
                out[(suffix, i)] = p[0].retval
        self.lay[name] = out
        return out

    # ------------------------------------------------------------ models of std containers
    def dispatch(self, ex, st, a, I):
        fn = I.aux[1] if I.aux[0] == "func" else None
        nm = fn.name
        if nm in ("_Znwm", "_ZdlPv", "_ZdlPvm"):
            return self.newdel(ex, st, nm, a)
        if nm in ("_ZN5probeC1Ei", "_ZN5probeC2Ei", "_ZN5probeD1Ev", "_ZN5probeD2Ev"):
            return self.probe(ex, st, nm, a)
        k = ex.hcache.get(("parse", nm))
        if k is None:
            d = ex.dname(fn)
            k = parse(d) or ("", "", "")
            ex.hcache[("parse", nm)] = k
        cls, m, args = k
        b = base(cls)
        h = {"std::queue": self.queue, "std::unordered_map": self.umap, "std::unordered_set": self.uset,
             "std::deque": self.queue}.get(b)
        if h is not None:
            # a nested class (iterator) of a container is not a container
            if cls.endswith(">"):
                return h(ex, st, cls, m, args, a)
            return NotImplemented
        hook = getattr(ex, "hook", None)
        if hook is not None:
            return hook(ex, st, b, cls, m, args, a, I)
        return NotImplemented

    def key(self, p):
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int):
            raise Unsupported("a standard container at an unknown place")
        return (p.obj.id, p.off)

    # queue: (arr, head, tail, set, pos): elements arr[head..tail), set = their set, pos = position of a member
    def queue(self, ex, st, cls, m, args, a):
        k = ("queue",) + self.key(a[0])
        short = base(cls).split("::")[-1]
        if m == short:
            if len(a) == 1 or (len(a) == 2 and "queue" not in args and "deque" not in args):
                st.ghost[k] = EMPTYQ
                return None
            src = ("queue",) + self.key(a[1])
            if src not in st.ghost:
                raise Unsupported("copy of an unknown queue")
            st.ghost[k] = st.ghost[src]
            if "&&" in args:
                st.ghost[src] = EMPTYQ
            return None
        if m == "~" + short:
            st.ghost.pop(k, None)
            return None
        q = st.ghost.get(k)
        if q is None:
            raise Unsupported("operation on an unknown queue")
        arr, h, t, s, qt = q
        ne = h < t
        if m == "empty":
            return z3.simplify(z3.Not(ne))
        if m == "size":
            return z3.simplify(t - h)
        if m in ("front", "back"):
            st.obls.append((f"queue is not empty at {m}()", ne))
            pos = h if m == "front" else t - 1
            o = ex.new_obj(st, "qref", 8, "ghost")
            ex.objbyid[o.id] = o
            st.cells(o, True)[0] = (8, z3.simplify(z3.Select(arr, pos)))
            return Ptr(o, 0)
        if m in ("push", "emplace", "push_back", "emplace_back"):
            v = ex.load(st, a[1], ir_ptr())
            v = ex.to_int(v)
            v = z3.IntVal(v) if isinstance(v, int) else v
            st.obls.append(("a location is returned to the queue only once", z3.Not(z3.Select(s, v))))
            st.ghost[k] = (z3.Store(arr, t, v), h, t + 1, z3.Store(s, v, z3.BoolVal(True)), z3.Store(qt, v, t))
            return NULL if m.startswith("emplace") else None
        if m in ("pop", "pop_front"):
            st.obls.append(("queue is not empty at pop()", ne))
            st.ghost[k] = (arr, h + 1, t, z3.Store(s, z3.Select(arr, h), z3.BoolVal(False)), qt)
            return None
        if m == "pop_back":
            st.obls.append(("queue is not empty at pop()", ne))
            st.ghost[k] = (arr, h, t - 1, z3.Store(s, z3.Select(arr, t - 1), z3.BoolVal(False)), qt)
            return None
        raise Unsupported(f"{cls}::{m}")

    # unordered_map<int, T*>: (val, dom)
    def umap(self, ex, st, cls, m, args, a):
        k = ("umap",) + self.key(a[0])
        empty = (AI("m0"), z3.K(I_, z3.BoolVal(False)))
        if m == "unordered_map":
            if len(a) == 1:
                st.ghost[k] = empty
                return None
            src = ("umap",) + self.key(a[1])
            if src not in st.ghost:
                raise Unsupported("copy of an unknown map")
            self.sync(st, src)
            st.ghost[k] = st.ghost[src]
            if "&&" in args:
                st.ghost[src] = empty
            return None
        if m == "~unordered_map":
            st.ghost.pop(k, None)
            return None
        if k not in st.ghost:
            raise Unsupported("operation on an unknown map")
        self.sync(st, k)
        val, dom = st.ghost[k]

        def keyof(p):
            v = ex.load(st, p, ir_int(32))
            return ex.ival(v, 32)
        if m in ("operator[]", "at"):
            i = keyof(a[1])
            o = ex.new_obj(st, "mref", 8, "ghost")
            ex.objbyid[o.id] = o
            if m == "at":
                st.obls.append(("the key of at() is present", z3.Select(dom, i)))
                st.pc.append(z3.Select(dom, i))
                v = z3.Select(val, i)
            else:
                v = z3.If(z3.Select(dom, i), z3.Select(val, i), z3.IntVal(0))
                st.ghost[k] = (z3.Store(val, i, v), z3.Store(dom, i, z3.BoolVal(True)))
            st.cells(o, True)[0] = (8, z3.simplify(v))
            st.ghost[("refs",) + k] = st.ghost.get(("refs",) + k, ()) + ((o, i),)
            return Ptr(o, 0)
        if m in ("contains", "count"):
            c = z3.Select(dom, keyof(a[1]))
            return z3.simplify(c) if m == "contains" else z3.If(c, z3.IntVal(1), z3.IntVal(0))
        if m in ("clear",):
            st.ghost[k] = empty
            return None
        raise Unsupported(f"{cls}::{m}")

    def sync(self, st, k):
        """values written through references to mapped values"""
        refs = st.ghost.get(("refs",) + k, ())
        if not refs:
            return
        val, dom = st.ghost[k]
        for o, i in refs:
            c = st.mem.get(o.id, {}).get(0)
            if c is None:
                continue
            v = c[1]
            if isinstance(v, Ptr):
                v = z3.IntVal(0) if v.obj is None else None
            if v is None:
                raise Unsupported("map entry")
            if not (z3.is_expr(v) and v.eq(z3.simplify(z3.Select(val, i)))):
                val = z3.Store(val, i, v)
        st.ghost[k] = (val, dom)

    # unordered_set<T*>: characteristic array
    def uset(self, ex, st, cls, m, args, a):
        k = ("uset",) + self.key(a[0])
        if m == "unordered_set":
            if len(a) == 1:
                st.ghost[k] = z3.K(I_, z3.BoolVal(False))
                return None
            src = ("uset",) + self.key(a[1])
            if src not in st.ghost:
                raise Unsupported("copy of an unknown set")
            st.ghost[k] = st.ghost[src]
            return None
        if m == "~unordered_set":
            st.ghost.pop(k, None)
            return None
        if k not in st.ghost:
            raise Unsupported("operation on an unknown set")
        if m in ("insert", "emplace"):
            v = ex.to_int(ex.load(st, a[1], ir_ptr()))
            was = z3.Select(st.ghost[k], v)
            st.ghost[k] = z3.Store(st.ghost[k], v, z3.BoolVal(True))
            return [NULL, z3.simplify(z3.Not(was))]
        if m in ("contains", "count"):
            v = ex.to_int(ex.load(st, a[1], ir_ptr()))
            c = z3.simplify(z3.Select(st.ghost[k], v))
            return c if m == "contains" else z3.If(c, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"{cls}::{m}")

    # allocation of segments
    def newdel(self, ex, st, nm, a):
        if nm == "_Znwm":
            n = a[0] if z3.is_expr(a[0]) else z3.IntVal(a[0])
            p = z3.FreshConst(I_, "segment")
            st.pc.append(p > 0)
            st.ghost["new"] = st.ghost.get("new", ()) + ((p, n),)
            for f in ex.on_new:
                st.pc += f(st, p, n)
            return p
        p = a[0]
        if isinstance(p, Ptr):
            if p.obj is None:
                return None
            return NotImplemented
        freed = st.ghost["freed"]
        st.obls.append(("memory is released once, and only segments are released", z3.And(z3.Select(st.ghost["segs"], p), z3.Not(z3.Select(freed, p)))))
        st.ghost["freed"] = z3.Store(freed, p, z3.BoolVal(True))
        return None

    def probe(self, ex, st, nm, a):
        p = ex.to_int(a[0])
        al = st.ghost["alive"]
        if "D" in nm[8:10]:
            st.obls.append(("a resource is destroyed only while it is alive", z3.Select(al, p) == 1))
            st.ghost["alive"] = z3.Store(al, p, z3.IntVal(0))
        else:
            st.obls.append(("a resource is constructed only where none is alive", z3.Select(al, p) == 0))
            st.ghost["alive"] = z3.Store(al, p, z3.IntVal(1))
        return None

    def flat_memcpy(self, ex, st, d, s, n):
        raise Unsupported("memcpy between flat memory")


_p = {}


def ir_ptr():
    if "p" not in _p:
        class T:
            kind, size, bits = "ptr", 8, 64
        _p["p"] = T()
    return _p["p"]


def ir_int(n):
    if n not in _p:
        class T:
            kind, size, bits = "int", n // 8, n
        _p[n] = T()
    return _p[n]


def q(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


class AState:
    """symbolic state of one SegmentedAllocator at (obj, off) of a State"""

    def __init__(self, P, name, tag=""):
        self.P, self.name = P, name
        L = P.layout(name)
        g = lambda i: L[("_layout", i)]
        self.o = dict(N=g(0), begin=g(1), end=g(2), ea=g(3), ns=g(4), ne=g(5), q=g(6), m=g(7))
        self.size, self.es, self.poff = g(8), g(9), g(10)
        self.io = dict(ptr=g(11), se=g(12), N=g(13), end=g(14))
        self.isize = g(15)
        t = tag
        self.N, self.ns, self.mm, self.ne = z3.Ints(f"N{t} ns{t} m{t} ne{t}")
        self.S, self.KK, self.II = AI("S" + t), AI("KK" + t), AI("II" + t)
        self.q = (AI("Q" + t), z3.Int("qh" + t), z3.Int("qt" + t), AB("Qset" + t), AI("Qpos" + t))
        self.map = (AI("Mval" + t), AB("Mdom" + t))

    # ---- the invariant as a formula over the components
    def inv(self, H8, c):
        """c: dict begin end ea ns ne N q map S KK II m"""
        es = self.es
        N, ns, m, S, KK, II = c["N"], c["ns"], c["m"], c["S"], c["KK"], c["II"]
        arr, h, t, s, qt = c["q"]
        val, dom = c["map"]
        k, j, x, u = z3.Ints("k j x u")
        f = {}
        f["segment size is positive, counts are not negative"] = z3.And(N >= 1, ns >= 0, h <= t)
        f["an empty pool owns nothing"] = z3.Implies(ns == 0, z3.And(c["begin"] == 0, c["end"] == 0, c["ea"] == 0, c["ne"] == 0, h == t))
        f["begin, end and end of allocation are in the first and last segments"] = z3.Implies(
            ns > 0, z3.And(c["begin"] == S[0], c["ea"] == S[ns - 1] + N * es, c["end"] == S[ns - 1] + es * m, m >= 1, m <= N))
        f["size is allocations minus returns"] = z3.Implies(ns > 0, c["ne"] == (ns - 1) * N + m - (t - h))
        f["each segment is followed by the address of the next one"] = q(
            [k], z3.Implies(z3.And(k >= 0, k < ns - 1), z3.Select(H8, S[k] + N * es) == S[k + 1]), S[k])
        f["the table of segments has every segment"] = q(
            [k], z3.Implies(z3.And(k >= 0, k < ns), z3.And(z3.Select(dom, k), z3.Select(val, k) == S[k])), S[k], *([z3.Select(dom, k)] if z3.is_const(dom) else []))
        f["segments do not overlap"] = q(
            [j, k], z3.Implies(z3.And(j >= 0, j < ns, k >= 0, k < ns, j != k),
                               z3.Or(S[j] + N * es + 8 <= S[k], S[k] + N * es + 8 <= S[j])), z3.MultiPattern(S[j], S[k]))
        f["segments have positive addresses"] = q([k], z3.Implies(z3.And(k >= 0, k < ns), S[k] > 0), S[k])
        f["available locations are slots below the end"] = q(
            [x], z3.Implies(z3.Select(s, x), z3.And(self.slot_lt(KK[x], II[x], ns, m, N), x == S[KK[x]] + es * II[x])), z3.Select(s, x))
        f["available locations are in their set"] = q([u], z3.Implies(z3.And(u >= h, u < t), z3.Select(s, z3.Select(arr, u))), z3.Select(arr, u))
        f["the set has only available locations"] = q(
            [x], z3.Implies(z3.Select(s, x), z3.And(h <= qt[x], qt[x] < t, z3.Select(arr, qt[x]) == x)), z3.Select(s, x))
        f["available locations are distinct"] = q([u], z3.Implies(z3.And(u >= h, u < t), qt[z3.Select(arr, u)] == u), z3.Select(arr, u))
        return f

    @staticmethod
    def slot_lt(k, i, ns, m, N):
        """(k, i) is a slot below the end"""
        return z3.And(k >= 0, k < ns, i >= 0, i < N, z3.Or(k < ns - 1, i < m))

    def is_slot(self, k, i):
        return self.slot_lt(k, i, self.ns, self.mm, self.N)

    def addr(self, k, i):
        return self.S[k] + self.es * i

    def comps(self):
        return dict(N=self.N, ns=self.ns, m=self.mm, ne=self.ne, S=self.S, KK=self.KK, II=self.II, q=self.q, map=self.map,
                    begin=self.begin, end=self.end, ea=self.ea)

    def install(self, ex, st, obj, off=0):
        """fill the object with a symbolic state satisfying the invariant"""
        if st.heap is None:
            ex.heap_init(st)
        self.begin = z3.If(self.ns > 0, self.S[0], 0)
        self.end = z3.If(self.ns > 0, self.S[self.ns - 1] + self.es * self.mm, 0)
        self.ea = z3.If(self.ns > 0, self.S[self.ns - 1] + self.N * self.es, 0)
        self.begin, self.end, self.ea = z3.Int(f"begin!{self.name}"), z3.Int(f"end!{self.name}"), z3.Int(f"ea!{self.name}")
        c = st.cells(obj, True)
        o = self.o
        for nm, v, n in (("N", self.N, 4), ("begin", self.begin, 8), ("end", self.end, 8), ("ea", self.ea, 8), ("ns", self.ns, 4), ("ne", self.ne, 4)):
            c[off + o[nm]] = (n, v)
        st.ghost[("queue", obj.id, off + o["q"])] = self.q
        st.ghost[("umap", obj.id, off + o["m"])] = self.map
        self.obj, self.off = obj, off
        self.H8 = st.heap[8]
        st.pc += list(self.inv(st.heap[8], self.comps()).values())
        segs = AB("segs")
        st.ghost.setdefault("segs", segs)
        st.ghost.setdefault("freed", AB("freed"))
        st.ghost.setdefault("alive", AI("alive"))
        st.ghost.setdefault("S", self.S)
        k = z3.Int("k")
        x = z3.Int("x")
        st.pc.append(q([k], z3.Implies(z3.And(k >= 0, k < self.ns), z3.And(z3.Select(segs, self.S[k]), z3.Not(z3.Select(st.ghost["freed"], self.S[k])))), self.S[k]))
        if not hasattr(ex, "on_new"):
            ex.on_new = []

        def on_new(st, p, n, self=self):
            k = z3.FreshConst(I_, "k")
            x = z3.FreshConst(I_, "x")
            out = [q([k], z3.Implies(z3.And(k >= 0, k < self.ns), z3.Or(self.S[k] + self.N * self.es + 8 <= p, p + n <= self.S[k])), self.S[k])]
            # nothing lives in memory that has just been allocated
            al = st.ghost["alive"]
            out.append(q([x], z3.Implies(z3.And(x >= p, x < p + n), z3.Select(al, x) == 0), z3.Select(al, x)))
            return out
        ex.on_new.append(on_new)

    def read(self, ex, st, obj=None, off=None):
        """components found in the object at the end of a path"""
        obj = obj if obj is not None else self.obj
        off = off if off is not None else self.off
        c = st.mem[obj.id]

        def g(nm, n):
            v = c.get(off + self.o[nm])
            if v is None or v[0] != n or v[1] is UNDEF:
                raise Unsupported(f"field {nm} has no value")
            v = v[1]
            if isinstance(v, Ptr):
                v = ex.to_int(v)
            return z3.IntVal(execu.sgn(v, 8 * n)) if isinstance(v, int) else v
        r = dict(N=g("N", 4), begin=g("begin", 8), end=g("end", 8), ea=g("ea", 8), ns=g("ns", 4), ne=g("ne", 4))
        kq, km = ("queue", obj.id, off + self.o["q"]), ("umap", obj.id, off + self.o["m"])
        if kq not in st.ghost or km not in st.ghost:
            raise Unsupported("containers of the pool are gone")
        self.P.sync(st, km)
        r["q"], r["map"] = st.ghost[kq], st.ghost[km]
        return r


def goal_checks(formulas):
    return formulas


class Prover:
    lost = 0.0        # time spent on obligations that were not discharged
    budget = 100

    def __init__(self, ctx, ex):
        self.ctx, self.ex, self.last = ctx, ex, None
        self.timeout = 20000 if ctx.tier == "quick" else 60000

    def valid(self, st, goal, timeout=None):
        """pc => goal"""
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            return True
        t = time.time()
        # matching alone first; then model-based instantiation, with a few seeds
        plans = [(None, timeout)] if timeout else [("match", 4000), (None, 8000), (1, 8000), ("match", 16000), (2, self.timeout), (3, 2 * self.timeout)]
        if not timeout and Prover.lost > self.budget:
            plans = [("match", 2000), (None, 2000)]     # many obligations have failed already
        self.model = None
        for seed, limit in plans:
            s = z3.SimpleSolver() if seed == "match" else z3.Solver()
            s.set("timeout", limit)
            if seed == "match":
                s.set("smt.mbqi", False)
            elif seed is not None:
                s.set("smt.random_seed", seed)
            for a in self.ex.axioms:
                s.add(a)
            for a in st.pc:
                s.add(a)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                break
            if r == z3.sat:
                self.model = s.model()
                break
        self.ctx.solver_time += time.time() - t
        if r != z3.unsat and not timeout:
            Prover.lost += time.time() - t
        self.last = r
        return r == z3.unsat


def cut_loops(ctx, ex, pv, A):
    """loops in the code of /repo, with candidate invariants over the slots of the pool"""
    def select(fn):
        return "mito::" in ex.dname(fn)

    def ints(syms):
        return [k for k, s in syms.items() if z3.is_expr(s) and s.sort() == I_ and (k[0] == "phi" or k[0] == "mem" and k[3] == 4)]

    def candidates(cut, ev, hv, syms):
        out = []
        j, k, i = z3.Ints("j k i")
        N, ns, m, es, S = A.N, A.ns, A.mm, A.es, A.S
        for v in ints(syms):
            nm = "/".join(str(x) for x in v[:2])
            val = lambda view, v=v: iv(view[v])
            out.append((f"{nm} is not negative", lambda w, f=val: f(w) >= 0))
            out.append((f"{nm} is at most the number of segments", lambda w, f=val: f(w) <= ns))
            out.append((f"{nm} is at most the number of elements", lambda w, f=val: f(w) <= A.ne))
            if getattr(A, "loc", None) is not None:
                out.append((f"the element is not in the first {nm} segments", lambda w, f=val: q(
                    [j], z3.Implies(z3.And(j >= 0, j < f(w)), z3.Or(A.loc < S[j], A.loc >= S[j] + N * es)), S[j])))
        for f in getattr(A, "candidates", ()):
            out += f(cut, ev, hv, syms)
        return out
    def measures(cut, ev, hv, syms):
        for f in getattr(A, "measures", ()):
            yield from f(cut, ev, hv, syms)
    LP.Loops(ex, select, candidates, measures=measures, ghosts=("alive", "freed", "queue", "uset", "umap", "it"), prove=lambda st, g: pv.valid(st, g, 3000))


class Iterators:
    """contract on the iterators of the allocator: an iterator is at a position (k, i) of the pool: a slot below
    the end, or the end (ns-1, m).  U03 verifies this contract against the code; other checks use it."""

    def __init__(self, P, ex, A, use=True):
        self.P, self.ex, self.A = P, ex, A
        if use:
            ex.hook = self.hook
        self.orig = ex.memcpy
        ex.memcpy = self.memcpy

    def memcpy(self, st, d, s, n):
        self.orig(st, d, s, n)
        if isinstance(s, Ptr) and isinstance(d, Ptr) and s.obj is not None and isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int):
            for k in [k for k in st.ghost if isinstance(k, tuple) and k and k[0] == "it" and k[1] == d.obj.id and d.off <= k[2] < d.off + n]:
                del st.ghost[k]
            for k in list(st.ghost):
                if isinstance(k, tuple) and k and k[0] == "it" and k[1] == s.obj.id and s.off <= k[2] < s.off + n:
                    st.ghost[("it", d.obj.id, k[2] - s.off + d.off)] = st.ghost[k]

    # -- cells of an iterator at (obj, off)
    def cells(self, st, obj, off):
        o = self.A.io
        c = st.mem[obj].get(off + o["ptr"]), st.mem[obj].get(off + o["se"]), st.mem[obj].get(off + o["N"]), st.mem[obj].get(off + o["end"])
        if any(x is None or x[1] is UNDEF for x in c):
            raise Unsupported("fields of an iterator")
        return [iv(self.ex.to_int(x[1]) if isinstance(x[1], Ptr) else x[1]) for x in c]

    def inv(self, st, obj, off, k, i):
        """the iterator at (obj, off) is at position (k, i)"""
        A = self.A
        ptr, se, N, end = self.cells(st, obj, off)
        at = z3.And(ptr == A.S[k] + A.es * i, z3.Or(A.is_slot(k, i), z3.And(k == A.ns - 1, i == A.mm)))
        # the end of the segment is not used at the end of the pool
        return z3.And(N == A.N, end == A.end, z3.If(A.ns > 0, z3.And(at, z3.Implies(A.is_slot(k, i), se == A.S[k] + A.N * A.es)), ptr == 0))

    def is_end(self, k, i):
        A = self.A
        return z3.Or(A.ns == 0, z3.And(k == A.ns - 1, i == A.mm))

    def put(self, st, obj, off, k, i):
        """make the iterator at (obj, off) be at position (k, i)"""
        A, o = self.A, self.A.io
        c = st.cells(obj, True)
        c[off + o["ptr"]] = (8, z3.If(A.ns > 0, A.S[k] + A.es * i, 0))
        se = z3.FreshConst(I_, "se")
        st.pc.append(z3.Implies(A.is_slot(k, i), se == A.S[k] + A.N * A.es))
        c[off + o["se"]] = (8, se)
        c[off + o["N"]] = (4, A.N)
        c[off + o["end"]] = (8, A.end)
        st.ghost[("it", obj.id, off)] = (k, i)

    def next(self, k, i):
        A = self.A
        jump = z3.And(k < A.ns - 1, i + 1 == A.N)
        return z3.If(jump, k + 1, k), z3.If(jump, z3.IntVal(0), i + 1)

    def hook(self, ex, st, b, cls, m, args, a, I):
        A = self.A
        if b == "mito::utilities::SegmentedAllocator" and m in ("begin", "end") and len(a) == 2:
            d, this = a
            if not (isinstance(this, Ptr) and this.obj is A.obj and this.off == A.off):
                raise Unsupported("iterator over another pool")
            if m == "begin":
                self.put(st, d.obj, d.off, z3.IntVal(0), z3.IntVal(0))
            else:
                self.put(st, d.obj, d.off, A.ns - 1, A.mm)
            return None
        if b == "mito::utilities::SegmentedAllocatorIterator" and m == "operator++" and args == "()":
            p = a[0]
            g = st.ghost.get(("it", p.obj.id, p.off))
            if g is None:
                raise Unsupported("iterator at an unknown position")
            k, i = g
            st.obls.append(("an iterator is incremented only before the end", z3.And(A.is_slot(k, i), self.inv(st, p.obj.id, p.off, k, i))))
            st.pc.append(A.is_slot(k, i))
            k2, i2 = self.next(k, i)
            self.put(st, p.obj, p.off, k2, i2)
            return p
        return NotImplemented

    def before(self, a, b):
        return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))

    def candidates(self, valid):
        def gen(cut, ev, hv, syms):
            out = []
            A = self.A
            k, i = z3.Ints("k i")
            for key in syms:
                if key[0] != "ghost" or key[1][0] != "it":
                    continue
                _, obj, off = key[1]
                out.append(("the iterator is at its position", lambda w, obj=obj, off=off, key=key: self.inv(w.st, obj, off, *w[key])))
                p0 = ev[key]
                for nm, incl in (("before", False), ("up to", True)):
                    def f(w, key=key, p0=p0, incl=incl):
                        cur = w[key]
                        b = self.before((k, i), cur)
                        if incl:
                            b = z3.Or(b, z3.And(k == cur[0], i == cur[1]))
                        return q([k, i], z3.Implies(z3.And(A.is_slot(k, i), self.before(p0, (k, i)), b), z3.Not(valid(w.st, k, i))))
                    out.append((f"no valid element after the start and {nm} the current position", f))

                def g(w, key=key, p0=p0):
                    cur = w[key]
                    return z3.Or(self.before(p0, cur), z3.And(p0[0] == cur[0], p0[1] == cur[1]))
                out.append(("the iterator does not go back", g))

                def h(w, key=key, p0=p0):
                    cur = w[key]
                    return z3.Or(z3.And(p0[0] == cur[0], p0[1] == cur[1]), z3.And(A.is_slot(*cur), z3.Not(valid(w.st, *cur))))
                out.append(("the current position is the start or an invalid element", h))

                def e(w, key=key):
                    return A.is_slot(*w[key])
                out.append(("the current position is before the end", e))
            return out
        return gen

    def measures(self, cut, ev, hv, syms):
        its = [k for k in syms if k[0] == "ghost" and k[1][0] == "it"]
        if its:
            yield "an iterator advances", lambda h, a: z3.Or(*[self.before(h[k], a[k]) for k in its])


def iv(v):
    if isinstance(v, Ptr):
        if v.obj is not None:
            raise Unsupported("address of an object")
        v = v.off
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(v) if isinstance(v, int) else v


def assume_common(ctx):
    ctx.assume(
        "machine integers are read as mathematical integers (sizes and counts do not overflow)",
        "std::queue, std::unordered_map<int, T *>, std::unordered_set<T *> satisfy their specification (models in contracts/pool_spec.py)",
        "operator new returns memory disjoint from the memory in use and does not fail; alignment is not modelled",
        "resources: four types of 16 and 40 bytes, whose constructors and destructors are observed; the code does not depend on the type otherwise (template, one instance per size)",
        "methods are executed from an arbitrary state satisfying the class invariant; the invariant is established by the constructors and preserved by every method, hence it holds for every history")


def inv_goals(A, st, c):
    for n, g in A.inv(st.heap[8], c).items():
        yield "invariant: " + n, g


def unchanged(ex, st, A):
    c = A.read(ex, st)
    out = [("the pool is not changed", z3.And(*[c[k] == getattr(A, v) for k, v in
            (("N", "N"), ("begin", "begin"), ("end", "end"), ("ea", "ea"), ("ns", "ns"), ("ne", "ne"))]))]
    same = all(x.eq(y) for x, y in zip(c["q"], A.q)) and all(x.eq(y) for x, y in zip(c["map"], A.map)) and all(st.heap[w].eq(A.heap0[w]) for w in st.heap)
    out.append(("the containers and the memory of the pool are not changed", z3.BoolVal(same)))
    return out


def method(ctx, P, nm, fname, title, args, pre, post, extra=None, off=0, size=None):
    """obligations of one method: executed from an arbitrary state satisfying the invariant"""
    fn = P.mod.funcs[fname]
    ex = P.ex()
    st = State()
    ex.heap_init(st)
    A = AState(P, nm)
    o = ex.new_obj(st, "pool", size or A.size, "param")
    ex.objbyid[o.id] = o
    try:
        if pre == "raw":
            A.obj, A.off = o, 0
            st.ghost.update(segs=AB("segs"), freed=AB("freed"), alive=AI("alive"))
            ex.on_new = []
        else:
            ne0 = A.ne
            if callable(pre):
                A.ne = pre(A)["ne"]      # the invariant is assumed with another count
                A.install(ex, st, o, off)
                st.cells(o, True)[A.o["ne"]] = (4, ne0)
                A.ne = ne0
            else:
                A.install(ex, st, o, off)
        A.heap0 = dict(st.heap)
        A.alive0 = st.ghost["alive"]
        if extra:
            extra(ex, st, A)
        a = args(ex, st, A) if args else [Ptr(o, 0)]
        pv = Prover(ctx, ex)
        cut_loops(ctx, ex, pv, A)
        if pv.valid(st, z3.BoolVal(False), 2000):
            ctx.failed(f"{title}: precondition is satisfiable", "the precondition is contradictory", where=title)
            return
        ctx.vacuity_ok()
        paths = ex.run(fn, a, st)
        discharge(ctx, ex, pv, paths, title, A, post)
    except (Unsupported, PathLimit) as e:
        unsupported(ctx, title, e)


UNDECIDED = []


def unsupported(ctx, title, e):
    UNDECIDED.append((title, str(e)))
    ctx.notes.append(f"{title}: outside the verifier's dialect ({e}); bounded stand-in used")


def discharge(ctx, ex, pv, paths, title, A, post):
    import time
    agg = {}
    ctx.inlined |= ex.executed

    def ob(name, ok, detail, t):
        r = agg.setdefault(name, [True, "", 0.0])
        r[2] += t
        if not ok:
            r[0] = False
            r[1] = r[1] or detail
    rets = [p for p in paths if p.status == "ret"]
    if rets and all(pv.valid(p, z3.BoolVal(False), 1000) for p in rets):
        # the assumptions contradict each other: nothing would be proved
        ctx.failed(f"{title}: some path returns", "no path that returns is possible", where=title)
    met = {}
    for p in paths:
        met[id(p.obls.met)] = p.obls.met
    for n, g, pc, ghost in [o for m in met.values() for o in list(m)]:
        # under what was known when the obligation was met, whatever became of the path
        t = time.time()
        s = State()
        s.pc, s.ghost = pc, ghost
        ok = pv.valid(s, g)
        ob(n, ok, f"solver: {pv.last}", time.time() - t)
    for p in paths:
        if p.status in ("loopback", "ret"):
            pass
        elif p.status == "unreachable":
            continue
        else:
            # assertion failures, null dereferences, exceptions: the path must be infeasible
            t = time.time()
            ok = pv.valid(p, z3.BoolVal(False))
            ob(f"no {p.status}: {p.retval}", ok, f"{p.status} is reachable: {p.retval}", time.time() - t)
            continue
        if p.status != "ret":
            continue
        for n, g in post(ex, p, A):
            t = time.time()
            ok = pv.valid(p, g)
            ob(n, ok, f"solver: {pv.last}", time.time() - t)
    for n, (ok, d, t) in agg.items():
        if ok:
            ctx.discharged(f"{title}: {n}", "z3", where=title, t=t)
        else:
            ctx.failed(f"{title}: {n}", d, where=title)
    cut = getattr(ex, "loopcut", None)
    if cut is not None:
        for n, w in dict.fromkeys(cut.obls):
            ctx.discharged(f"{title}: {n}", "z3", where=title)
        for n, w in dict.fromkeys(cut.failed):
            ctx.failed(f"{title}: {n}", "not proved", where=title)
    if not agg:
        ctx.failed(f"{title}: some path returns", "no path", where=title)


def parallel(ctx, jobs):
    """jobs: functions of a check context, each in a process of its own"""
    import multiprocessing as mp
    from engine import core
    mpc = mp.get_context("fork")
    sem = mpc.Semaphore(max(2, mp.cpu_count()))
    ps = []
    for job in jobs:
        r, w = mpc.Pipe(False)

        def body(job=job, w=w):
            c = core.Ctx(ctx.prop, ctx.tier, ctx.seed)
            err = None
            with sem:
                try:
                    job(c)
                except BaseException:
                    import traceback
                    err = traceback.format_exc()
            w.send((err, c.obls, c.functions, c.failures, c.notes, c.bounded, c.assumptions, c.inlined, c.solver_time, c.vacuity, UNDECIDED))
            w.close()
        p = mpc.Process(target=body)
        p.start()
        w.close()
        ps.append((p, r))
    for p, r in ps:
        try:
            err, obls, fns, fails, notes, bounded, assume, inl, t, v, und = r.recv()
        except EOFError:
            err, und = "a worker ended (memory?)", []
            obls, fns, fails, notes, bounded, assume, inl, t, v = [], {}, [], [], [], [], set(), 0, 0
        p.join()
        if err:
            raise RuntimeError(err)
        ctx.obls += obls
        for k, n in fns.items():
            ctx.functions[k] = ctx.functions.get(k, 0) + n
        ctx.failures += fails
        ctx.notes += notes
        ctx.bounded += bounded
        ctx.assume(*assume)
        ctx.inlined |= inl
        ctx.solver_time += t
        ctx.vacuity += v
        UNDECIDED.extend(und)


HISTORIES = {"quick": 60000, "thorough": 1000000}
REPLAY = {"U": ("replay_pool.cc", 1), "T": ("replay_topology.cc", 5), "H": ("replay_mesh.cc", 5000), "E": ("replay_assembly.cc", 30), "S": ("replay_solver.cc", 40), "I": ("replay_io.cc", 150), "D": ("replay_discrete.cc", 300)}      # by property: program, cost of a history
LIBS = {"S": ["-lpetsc_real", "-lmpi"]}
LAUNCH = {"S": [[], ["mpiexec", "--oversubscribe", "-n", "2"], ["mpiexec", "--oversubscribe", "-n", "3"]]}


def search(ctx, prop):
    """a failing history on the real code: (text, replay) or None"""
    src, cost = REPLAY[prop[0]]
    exe = F.program(F.harness(src), libs=LIBS.get(prop[0], ()))
    import subprocess
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    args = [prop, str(ctx.seed), str(HISTORIES.get(ctx.tier, 60000) // cost)]
    for launch in LAUNCH.get(prop[0], [[]]):
        try:
            p = subprocess.run(launch + [exe] + args, capture_output=True, text=True, timeout=300, errors="replace", env=env)
        except (subprocess.TimeoutExpired, OSError):
            continue
        if not p.returncode or (prop[0] in LAUNCH and "FAIL" not in p.stdout):      # (the launcher can fail by itself)
            continue
        import re
        out = p.stdout.strip()[-3000:]
        m = re.search(r"seed (\d+), history", out)
        a = [prop, m.group(1), "1"] if m else args
        # lengths of histories depend on their place: replay from the same start
        return out or f"exit code {p.returncode}", dict(kind="program", harness=src, args=args, launch=launch, note=f"failing seed {a[1]}")
    return None


def conclude(ctx, prop):
    """failed obligations: look for a failing history on the real code; functions outside the dialect: bounded stand-in"""
    if not ctx.failures and not UNDECIDED:
        return
    try:
        hit = search(ctx, prop)
    except F.BuildError as e:
        ctx.notes.append(f"the search for a failing history does not compile: {str(e)[:300]}")
        return
    n = HISTORIES.get(ctx.tier, 60000) // REPLAY[prop[0]][1]
    if hit:
        text, rep = hit
        names = [f["name"] for f in ctx.failures][:3]
        ctx.failed("history of the real code" + (f" (obligations not discharged: {'; '.join(names)})" if names else ""), text, replay=rep, confirmed=True,
                   where="harness/" + REPLAY[prop[0]][0])
    else:
        for title, why in UNDECIDED:
            ctx.stand_in(title, f"{n} random histories of up to 50 operations against a reference model, seed {ctx.seed} ({why})")


def fallback(ctx, prop):
    """the harness does not compile: nothing can be proved, the bounded stand-in remains"""
    UNDECIDED.append(("all contracts", "the harness does not bind to the current tree"))
    conclude(ctx, prop)
