"""Contracts on the discretization of meshes (discretizers, function spaces) and on discrete systems.

Nodes, cells and elements are objects at addresses (0 .. 2^40), their fields arrays indexed by the address.
Every standard container is a ghost: `has`, the set of its keys; the values of a map are in the flat heap, the element
with key k at address k + B, B a number of its own (multiple of 2^44).  A pair key is numbered by an injective pairing.
Range loops are cut at the iterator protocol (Cut): the state that the loop writes is arbitrary, constrained by those
candidate invariants that hold at the entry and are preserved by the body (Houdini), one arbitrary element is visited."""
import itertools, os, re, time
import z3
from engine import frontend as F, ir, execu, fold, reals as R
from engine.execu import Ex, State, Ptr, NULL, UNDEF, Unsupported, PathLimit, Infeasible, Obligations
from engine.names import parse, base
from .pool_spec import ir_ptr, ir_int, Prover, discharge
from . import pool_spec as PS, topo_spec as TS
from .topo_spec import I_, B_, TEx

And, Or, Not, If, Implies, Select, Store = z3.And, z3.Or, z3.Not, z3.If, z3.Implies, z3.Select, z3.Store
ELEMENTS = {"seg1": (1, 1), "tri1": (2, 2), "tri2": (2, 2)}     # order of the cell, dimension
z3.set_param("warning", False)
SIZE = 1 << 40
SPACE = 1 << 44
DEBUG = os.environ.get("E03_DEBUG")
EDGES = [(0, 1), (1, 2), (2, 0)]

pair_ = z3.Function("pair", I_, I_, I_)
fst, snd = z3.Function("fst", I_, I_), z3.Function("snd", I_, I_)


def forall(vs, body, *pats):
    if pats:
        try:
            return z3.ForAll(vs, body, patterns=list(pats))
        except z3.Z3Exception:          # not a pattern: fine for a goal
            pass
    return z3.ForAll(vs, body)


class Box:
    """a ghost container"""
    __slots__ = ("n", "kind", "key", "val", "name")

    def __init__(self, n, kind, key, val, name):
        self.n, self.kind, self.key, self.val, self.name = n, kind, key, val, name

    @property
    def base(self):
        return (self.n + 1) * SPACE

    def vfield(self):
        return (self.base + 16, {"disc": 8, "int": 4, "double": 8}[self.val])


def hard(s, limit):
    """result of a solver, with a limit on its time that it cannot overstep (it does, in model-based instantiation)"""
    import select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, str(s.check()).encode())
        finally:
            os._exit(0)
    os.close(w)
    ok, _, _ = select.select([r], [], [], limit / 1000 + 1)
    out = os.read(r, 10).decode() if ok else ""
    os.close(r)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return out or "unknown"


class EProver(Prover):
    budget = 60

    def valid(self, st, goal, timeout=None):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            return True
        t = time.time()
        # matching alone first; then model-based instantiation
        plans = [(0, False, 4000), (0, True, 4000), (1, False, 8000), (2, False, 16000)]
        if timeout:
            plans = [(0, True, timeout)]
        elif Prover.lost > self.budget:
            plans = [(0, False, 3000)]
        for seed, mbqi, limit in plans:
            s = z3.SimpleSolver()
            s.set("timeout", limit)
            s.set("smt.mbqi", mbqi)
            s.set("smt.random_seed", seed)
            for a in list(self.ex.axioms) + list(st.pc) + list(st.ghost.get("facts", ())):
                s.add(a)
            s.add(Not(goal))
            r = hard(s, limit) if mbqi else str(s.check())
            if r == "unsat" or mbqi and r == "sat":
                break
            if DEBUG and not timeout:
                print("   undecided", seed, mbqi, round(time.time() - t, 2))
                open(f"/tmp/w/dump{seed}{mbqi}.smt2", "w").write(s.sexpr())
        self.ctx.solver_time += time.time() - t
        if r != "unsat" and not timeout:
            Prover.lost += time.time() - t
        self.last = r
        return r == "unsat"

    def quick(self, st, goal, timeout=3000):
        """by matching alone"""
        t = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        s.set("smt.mbqi", False)
        for a in list(self.ex.axioms) + list(st.pc) + list(st.ghost.get("facts", ())):
            s.add(a)
        s.add(Not(goal))
        r = s.check()
        if DEBUG:
            print(f"   quick {r} {time.time() - t:.2f}")
        self.ctx.solver_time += time.time() - t
        return r == z3.unsat


class AEx(TEx):
    def feasible(self, st, extra):
        """no contradiction by matching alone"""
        s = z3.SimpleSolver()
        s.set("timeout", 1000)
        s.set("smt.mbqi", False)
        for a in list(self.axioms) + list(st.pc) + list(st.ghost.get("facts", ())) + list(extra):
            s.add(a)
        return s.check() != z3.unsat

    def flat_load(self, st, a, ty, size):
        if ty.kind == "double":
            b, off = self.place(st, a)
            return z3.simplify(Select(self.field(st, off, size), b))
        return TEx.flat_load(self, st, a, ty, size)

    def flat_store(self, st, a, v, ty):
        if isinstance(v, R.Node):
            v = real_token(v)
        return TEx.flat_store(self, st, a, v, ty)


def real_token(v):
    return z3.Int("real_%s" % (str(v) if not hasattr(v, "const") else v))


class View:
    """a state, for the invariants"""

    def __init__(self, J, ex, st, loop=None, V=None):
        self.J, self.ex, self.st, self.loop, self.V = J, ex, st, loop, V

    def boxes(self):
        return [b for b in self.st.ghost["boxes"].values()]

    def has(self, b):
        return self.st.ghost[("has", b.n)]

    def vals(self, b):
        return self.ex.field(self.st, *b.vfield())

    def used(self):
        return self.st.ghost["used"]


class Cut(fold.Fold):
    """loops with invariants: the candidates are those of the job"""

    def __init__(self, ex, job, pv):
        fold.Fold.__init__(self, ex, None)
        self.job, self.pv = job, pv
        self.cache = {}
        self.serial = 0

    # -------------------------------------------------- state
    @staticmethod
    def ghosts(st):
        return [k for k in st.ghost if k == "used" or isinstance(k, tuple) and k[0] == "has"]

    def dirty_of(self, start, end, itp, dirty):
        new = {}
        for oid, cells in end.mem.items():
            if oid not in start.mem or cells is start.mem[oid]:
                continue
            a, b = start.mem[oid], cells
            for o, c in b.items():
                if isinstance(o, int) and (a.get(o) is None or not fold.same(a[o][1], c[1])) and (oid, o) != (itp.obj.id, itp.off):
                    new[("mem", oid, o)] = c[0]
            if b.get(("zero",)) != a.get(("zero",)):
                for u, v in b.get(("zero",)) or ():
                    if (u, v) not in (a.get(("zero",)) or ()):
                        for o in range(u, v, 8):
                            new.setdefault(("mem", oid, o), min(8, v - o))
        for k, v in end.heap.items():
            w = start.heap.get(k)
            if w is None:
                w = z3.Array(f"F{k[0]}_{k[1]}", I_, I_)
            if not v.eq(w):
                new[("heap",) + k] = 0
        for k in self.ghosts(start):
            if not end.ghost[k].eq(start.ghost[k]):
                new[("ghost", k)] = 0
        return {k: v for k, v in new.items() if k not in dirty}

    def smash(self, st, dirty, tag):
        ints = {}
        for k, size in dirty.items():
            if k[0] == "mem":
                _, oid, o = k
                cells = st.mem.get(oid)
                if cells is None:
                    continue
                if oid not in st.owned:
                    cells = dict(cells)
                    st.mem[oid] = cells
                    st.owned.add(oid)
                old = cells.get(o)
                v = UNDEF
                if old is not None and size == 4 and (isinstance(old[1], int) or z3.is_expr(old[1])):
                    v = z3.Int(f"cell_{tag}_{len(ints)}")
                    ints[k] = v
                for u in [u for u, cc in cells.items() if isinstance(u, int) and u != o and u < o + size and u + cc[0] > o]:
                    del cells[u]
                cells[o] = (size, v)
            elif k[0] == "heap":
                st.heap[k[1:]] = z3.Array(f"F{k[1]}_{k[2]}_{tag}", I_, I_)
            else:
                g = k[1]
                nm = "used" if g == "used" else f"has{g[1]}"
                st.ghost[g] = z3.Array(f"{nm}_{tag}", I_, B_)
        return ints

    def ints(self, st, keys):
        out = {}
        for k in keys:
            c = st.mem.get(k[1], {}).get(k[2])
            v = None if c is None else c[1]
            if isinstance(v, int):
                v = z3.IntVal(execu.sgn(v, 32))
            out[k] = v
        return out

    # -------------------------------------------------- the elements of a container
    def members(self, st, container):
        """(predicate: array I -> B, name of the sort of elements, address of element x)"""
        b = self.job.T.box(st, container, False)
        if b is not None:
            return st.ghost[("has", b.n)], b, lambda x: z3.simplify(x + b.base)
        return self.job.elements(self.ex, st, container) + (lambda x: x,)

    # -------------------------------------------------- the protocol
    def compare(self, neg):
        def h(ex, st, a, I):
            x, y = self.get(st, a[0]), self.get(st, a[1])
            if x.kind == "end":
                x, y, a = y, x, [a[1], a[0]]
            if y.kind == "key" and x.kind != "key":
                x, y, a = y, x, [a[1], a[0]]
            if x.kind == "key":
                return self.keys(ex, st, x, y, neg)
            if y.kind != "end" or x.container != y.container:
                raise Unsupported("comparison of iterators that are not (current, end)")
            if x.kind == "end":
                return int(not neg)
            if x.kind == "cur":
                return int(neg)
            self.cut(st, a[0], x, I, neg)
            raise Infeasible()
        return h

    def keys(self, ex, st, x, y, neg):
        if y.kind == "end" and x.container == y.container:
            present = ex.decide(st, x.present, None)
            return int(present == neg)
        raise Unsupported("comparison of positions")

    def head(self, st, dirty, tag, itp, x, member, facts):
        """an arbitrary iteration"""
        s = st.fork()
        ints = self.smash(s, dirty, tag)
        lp = fold.Loop(x.container, None)
        lp.key = x.container
        V = z3.Array(f"V_{tag}", I_, B_)
        elem = z3.Int(f"elem_{tag}")
        pred, sort, addr = member
        lp.V, lp.x, lp.sort, lp.pred, lp.ints, lp.tag = V, elem, sort, pred, ints, tag
        lp.elem = addr(elem)
        lp.entry = st
        s.pc += [elem > 0, elem < SIZE, Select(pred, elem), Not(Select(V, elem))]
        d = dict(s.ghost.get("nonnull", {}))
        d[elem.get_id()] = elem
        s.ghost["nonnull"] = d
        if isinstance(sort, Box):
            self.job.T.known_key(self.ex, s, sort, elem)
        v = z3.Int("v")
        s.ghost["facts"] = s.ghost.get("facts", ()) + (forall([v], Implies(Select(V, v), Select(pred, v)), Select(V, v)),)
        lp.before = View(self.job, self.ex, s.fork(), lp, V)
        lp.before.ints = ints
        s.ghost["facts"] += tuple(f for n, f in facts(lp.before))
        s.ghost["rec"] = ()
        s.ghost["witness"] = s.ghost.get("witness", ()) + (("at", tag), ("elem", elem))
        self.put(s, itp, fold.Iter(x.container, "cur", lp))
        s.ghost["cut"] = s.ghost.get("cut", ()) + (lp,)
        return s, lp

    def cut(self, st, itp, x, I, neg):
        ex = self.ex
        self.serial += 1
        n = self.serial
        member = self.members(st, x.container)
        # the state that the loop writes (obligations met while the invariant is searched for are not those of the proof)
        real, st = st, st.fork()
        st.obls = Obligations(st, real.obls)
        dirty = {}
        for k in range(8):
            s, lp = self.head(st, dirty, f"d{n}_{k}", itp, x, member, lambda v: [])
            start = s.fork()
            ex.assign_call(s, I, int(neg))
            new = {}
            for f in ex.subrun(s):
                if f.status == "iteration" and f.ghost["cut"][-1] is lp:
                    new.update(self.dirty_of(start, f, itp, dirty))
            dirty.update(new)
            if not new:
                break
        else:
            raise Unsupported("the state of the loop does not stabilise")
        if isinstance(member[1], Box) and ("ghost", ("has", member[1].n)) in dirty:
            raise Unsupported("a loop that changes the container it visits")
        # the candidates: those that hold at the entry ...
        none = z3.K(I_, z3.BoolVal(False))
        self.smash(st.fork(), dirty, "probe")
        probe = st.fork()
        intkeys = list(self.smash(probe, dirty, f"p{n}"))

        def generate(s, loop, V, ints, assume=None):
            v = View(self.job, ex, s, loop, V)
            v.assume = assume
            v.entry = View(self.job, ex, st, None, none)
            v.ints = ints
            v.pred, v.sort = member[0], member[1]
            return dict(self.job.candidates(v))
        at_entry = generate(st, None, none, self.ints(st, intkeys))
        keep = [c for c, f in at_entry.items() if self.pv.quick(st, f)]
        # ... and are preserved
        rounds = 0
        while True:
            rounds += 1
            s, lp = self.head(st, dirty, f"h{n}_{rounds}", itp, x, member,
                              lambda v: [(c, f) for c, f in generate(v.st, None, v.V, v.ints, f"h{n}_{rounds}").items() if c in keep])
            ex.assign_call(s, I, int(neg))
            lost = set()
            for f in ex.subrun(s):
                if f.status != "iteration" or f.ghost["cut"][-1] is not lp:
                    continue
                if self.pv.quick(f, z3.BoolVal(False), 1000):
                    continue
                g = generate(f, lp, Store(lp.V, lp.x, z3.BoolVal(True)), self.ints(f, intkeys))
                lost |= {c for c in keep if c not in lost and not (c in g and self.pv.quick(f, g[c]))}
            keep = [c for c in keep if c not in lost]
            if not lost:
                break
        st = real
        st.ghost["loops"] = st.ghost.get("loops", ()) + ((n, tuple(keep)),)
        self.job.invariants.setdefault(repr(member[1]), []).append(keep)
        # an iteration
        s, lp = self.head(st, dirty, f"i{n}", itp, x, member,
                          lambda v: [(c, f) for c, f in generate(v.st, None, v.V, v.ints, f"i{n}").items() if c in keep])
        lp.dirty, lp.intkeys = dirty, intkeys
        ex.assign_call(s, I, int(neg))
        ex.pending.append(s)
        # after the loop: every element has been visited
        out = st.fork()
        ints = self.smash(out, dirty, f"x{n}")
        out.ghost["facts"] = out.ghost.get("facts", ()) + tuple(f for c, f in generate(out, None, member[0], ints, f"x{n}").items() if c in keep)
        out.ghost["rec"] = ()
        out.ghost["witness"] = out.ghost.get("witness", ()) + (("at", f"x{n}"),)
        out.ghost["after"] = out.ghost.get("after", ()) + ((member[1], st.ghost["rec"]),)
        self.put(out, itp, fold.Iter(x.container, "end"))
        ex.assign_call(out, I, int(not neg))
        ex.pending.append(out)

    def find(self, st, p):
        return self.get(st, p)


ITER = r"std::(_Rb_tree|__detail::_Node)_(const_)?iterator(_base)?<"


class Assembly(TS.Topo):
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("assembly.cc"), "O0raw"))
        e = Ex(self.mod)
        self.lay = {}
        for X in ELEMENTS:
            L = []
            for i in range(31):
                p = e.run(self.mod.funcs[f"assembly_layout_{X}"], [i])
                if len(p) != 1 or not isinstance(p[0].retval, int):
                    raise Unsupported("layout of the classes")
                L.append(p[0].retval)
            self.lay[X] = L

    def ex_(self, J, pv_ctx):
        ex = AEx(self.mod, max_steps=2000000, max_paths=4000)
        ex.feas_timeout = 2000
        ex.objbyid = {}
        ex.refs, ex.instances, ex.lazy_sets, ex.topo = False, True, False, self
        ex.contracts = {}
        pv = EProver(pv_ctx, ex)
        self.loops = Cut(ex, J, pv)
        self.loops.install(fold.SEGVEC)
        ex.patterns.append((lambda d, f: True, self.dispatch))
        return ex, pv

    def state(self):
        st = State()
        st.heap = {}
        st.ghost["boxes"] = {}
        st.ghost["used"] = z3.Array("used", I_, B_)
        st.ghost["rec"] = ()
        return st

    # ------------------------------------------------------------ containers
    def new_box(self, st, p, kind, key, val, name, has=None):
        bx = dict(st.ghost["boxes"])
        n = max([b.n for b in bx.values()] + [st.ghost.get("nbox", 0)]) + 1
        st.ghost["nbox"] = n
        b = Box(n, kind, key, val, name)
        bx[(p.obj.id, p.off)] = b
        st.ghost["boxes"] = bx
        st.ghost[("has", n)] = z3.K(I_, z3.BoolVal(False)) if has is None else has
        return b

    def box(self, st, p, must=True):
        b = st.ghost["boxes"].get((p.obj.id, p.off)) if isinstance(p, Ptr) and p.obj is not None else None
        if b is None and must:
            raise Unsupported(f"container out of sight at {p}")
        return b

    @staticmethod
    def types(cls):
        """kind, key and value of a container class"""
        m = re.match(r"std::(unordered_map|map|unordered_set|set)<(.*)>$", cls)
        if not m:
            return None
        rest = m.group(2)
        kinds = [("id", r"mito::utilities::StdSharedPointer<mito::geometry::GeometricSimplex<0, \d> const>"),
                 ("disc", r"mito::utilities::StdSharedPointer<mito::discrete::DiscretizationNode const>"),
                 ("pair", r"std::array<unsigned long, 2ul>"), ("pair", r"std::pair<unsigned long, unsigned long>"), ("int", r"int"), ("double", r"double"), ("word", r"unsigned long")]

        def take(s):
            for k, p in kinds:
                q = re.match(p + r"(, |$)", s)
                if q:
                    return k, s[q.end():]
            return None, s
        k, rest = take(rest)
        if k is None:
            return None
        if "map" not in m.group(1):
            return "set", k, None
        v, rest = take(rest)
        if v is None:
            return None
        return "map", k, v

    def node_id(self, ex, st, p):
        return z3.simplify(self.num(ex, ex.load(st, p, ir_ptr())))

    def key_at(self, ex, st, b, p):
        if b.key == "pair":
            x = [z3.simplify(v) for v in self.elems(ex, st, p, 2)]
            k = pair_(*x)
            st.pc += [fst(k) == x[0], snd(k) == x[1], k > 0, k < SIZE]
            return k
        return self.node_id(ex, st, p)

    def known_key(self, ex, st, b, k):
        """the key is stored in the element"""
        if b.key == "pair":
            st.pc += [Select(ex.field(st, b.base, 8), k) == fst(k), Select(ex.field(st, b.base + 8, 8), k) == snd(k), pair_(fst(k), snd(k)) == k]
        else:
            st.pc.append(Select(ex.field(st, b.base, 8), k) == k)
            d = dict(st.ghost.get("nonnull", {}))
            d[z3.simplify(k).get_id()] = k
            st.ghost["nonnull"] = d

    def position(self, st, ex, p_container, b, k, present):
        it = fold.Iter(p_container, "key")
        it.k, it.present, it.b = k, present, b
        return self.loops.token(st, it)

    def value_at(self, ex, st, b, p):
        """the value stored at p, as a term"""
        if b.val == "disc":
            return self.node_id(ex, st, p)
        if b.val == "int":
            v = ex.load(st, p, ir_int(32))
            return z3.IntVal(execu.sgn(v, 32)) if isinstance(v, int) else v
        v = ex.load(st, p, ir_double())
        return real_token(v) if isinstance(v, R.Node) else v

    def put_value(self, ex, st, b, k, v, keep):
        f = ex.field(st, *b.vfield())
        h = st.ghost[("has", b.n)]
        if keep:
            v = If(Select(h, k), Select(f, k), v)
        st.heap[b.vfield()] = Store(f, k, v)
        st.ghost[("has", b.n)] = Store(h, k, z3.BoolVal(True))

    def container(self, ex, st, cls, ty, m, args, a, I, d):
        kind, key, val = ty
        ctor = cls.split("<")[0].split("::")[-1]
        if m == ctor:
            if len(a) == 1 or isinstance(a[1], int):
                self.new_box(st, a[0], kind, key, val, cls[:30])
            elif isinstance(a[1], Ptr) and self.box(st, a[1], False) is not None and re.search(ctor + "<", args):
                src = self.box(st, a[1])
                b = self.new_box(st, a[0], kind, key, val, cls[:30], st.ghost[("has", src.n)])
                for o in (0, 8, 16):
                    for s in (4, 8):
                        if (src.base + o, s) in st.heap:
                            st.heap[(b.base + o, s)] = st.heap[(src.base + o, s)]
                        elif kind == "map" and o == 16:
                            st.heap[(b.base + o, s)] = z3.Array(f"F{src.base + o}_{s}", I_, I_)
                if "&&" in args:
                    st.ghost[("has", src.n)] = z3.K(I_, z3.BoolVal(False))
            elif isinstance(a[1], Ptr) and "std::allocator" in args or "hash" in args:
                self.new_box(st, a[0], kind, key, val, cls[:30])
            else:
                raise Unsupported(f"{ctor}{args[:80]}")
            return None
        if m == "~" + ctor:
            return None
        if m == "operator=":
            raise Unsupported("assignment of a container")
        # the container is the first argument, unless the result comes first
        i = 0 if self.box(st, a[0], False) is not None else 1
        b = self.box(st, a[i])
        if (b.kind, b.key, b.val) != ty:
            raise Unsupported("container of another class")
        h = ("has", b.n)
        x = a[i + 1:]

        def ret(v):
            if i:
                raise Unsupported("result of " + m)
            return v
        if m in ("begin", "cbegin", "end", "cend"):
            return ret(self.loops.token(st, fold.Iter(a[0], "begin" if "begin" in m else "end")))
        if m in ("size", "empty"):
            n = z3.FreshConst(I_, "size")
            st.pc += [n >= 0, n < 1 << 31]
            if m == "empty":
                w, k, e = z3.FreshConst(I_, "member"), z3.Int("k"), z3.FreshConst(B_, "empty")
                st.ghost["facts"] = st.ghost.get("facts", ()) + (forall([k], Implies(e, Not(Select(st.ghost[h], k))), Select(st.ghost[h], k)),)
                st.pc.append(Or(e, Select(st.ghost[h], w)))
                return int(ex.decide(st, e, None))
            return n
        if m in ("count", "contains"):
            k = self.key_at(ex, st, b, x[0])
            return int(ex.decide(st, Select(st.ghost[h], k), None))
        if m == "find":
            k = self.key_at(ex, st, b, x[0])
            present = Select(st.ghost[h], k)
            p = ex.decide(st, present, None)
            if p:
                self.known_key(ex, st, b, k)
            return ret(self.position(st, ex, a[i], b, k, z3.BoolVal(p)))
        if m == "erase":
            if "iterator" in args or "const_iterator" in args:
                raise Unsupported("erase at an iterator")
            k = self.key_at(ex, st, b, x[0])
            present = ex.decide(st, Select(st.ghost[h], k), None)
            st.ghost[h] = Store(st.ghost[h], k, z3.BoolVal(False))
            return int(present)
        if m == "clear":
            st.ghost[h] = z3.K(I_, z3.BoolVal(False))
            return None
        if m == "reserve":
            return None
        if kind == "map" and m in ("operator[]", "at"):
            k = self.key_at(ex, st, b, x[0])
            if m == "at":
                present = ex.decide(st, Select(st.ghost[h], k), None)
                if not present:
                    st.status, st.retval = "throw", "at: no such key"
                    return None
            else:
                if b.val == "disc":
                    d_ = self.fresh(ex, st)
                else:
                    d_ = z3.IntVal(0)
                self.put_value(ex, st, b, k, d_, True)
            return z3.simplify(k + (b.base + 16))
        if m in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
            hint = m == "emplace_hint" or m == "insert" and isinstance(x[0], Ptr) and isinstance(getattr(x[0].obj, "info", None), fold.Iter)
            if hint:
                x = x[1:]
            if kind == "set" and m == "insert" and len(x) == 2:
                return self.insert_range(ex, st, b, *x)
            if kind == "set":
                if m not in ("insert", "emplace", "emplace_hint") or len(x) != 1:
                    raise Unsupported(f"set::{m}{args[:60]}")
                k = self.key_at(ex, st, b, x[0])
                old = Select(st.ghost[h], k)
                st.ghost[h] = Store(st.ghost[h], k, z3.BoolVal(True))
            else:
                if len(x) == 1 and m in ("insert", "emplace", "emplace_hint") and "std::pair<" in args:
                    k = self.key_at(ex, st, b, x[0])
                    v = self.value_at(ex, st, b, ex.padd(x[0], 16))
                elif len(x) >= 1 and m != "insert":
                    k = self.key_at(ex, st, b, x[0])
                    if len(x) == 2:
                        v = self.value_at(ex, st, b, x[1])
                    elif len(x) == 1:
                        v = self.fresh(ex, st) if b.val == "disc" else z3.IntVal(0)
                    else:
                        raise Unsupported(f"map::{m}{args[:60]}")
                else:
                    raise Unsupported(f"map::{m}{args[:60]}")
                old = Select(st.ghost[h], k)
                self.put_value(ex, st, b, k, v, m != "insert_or_assign")
            self.known_key(ex, st, b, k)
            it = self.position(st, ex, a[i], b, k, z3.BoolVal(True))
            if I.ty.kind == "struct":
                return [it, If(old, z3.IntVal(0), z3.IntVal(1))]
            if i == 1:
                ex.store(st, a[0], it, ir_ptr())
                ex.store(st, ex.padd(a[0], 8), If(old, z3.IntVal(0), z3.IntVal(1)), ir_int(8))
                return None
            return it
        raise Unsupported(f"{ctor}::{m}")

    def insert_range(self, ex, st, b, first, last):
        h = ("has", b.n)
        its = [getattr(p.obj, "info", None) if isinstance(p, Ptr) else None for p in (first, last)]
        if all(isinstance(i, fold.Iter) for i in its):
            src = self.box(st, its[0].container)
            if [i.kind for i in its] != ["begin", "end"] or its[0].container != its[1].container or src.kind != "set" or src.key != b.key:
                raise Unsupported("insertion of a part of a container")
            n, k = z3.FreshConst(z3.ArraySort(I_, B_), "union"), z3.Int("k")
            x, y = st.ghost[h], st.ghost[("has", src.n)]
            st.ghost["facts"] = st.ghost.get("facts", ()) + tuple(forall([k], Select(n, k) == Or(Select(x, k), Select(y, k)), t) for t in (Select(n, k), Select(x, k), Select(y, k)))
            st.ghost[h] = n
            return None
        # elements of an array
        step = 8 if b.key == "int" else 16
        d = last - first if z3.is_expr(first) and z3.is_expr(last) else None
        if isinstance(first, Ptr) and isinstance(last, Ptr) and first.obj is last.obj and isinstance(first.off, int) and isinstance(last.off, int):
            n = last.off - first.off
        elif d is not None and z3.is_int_value(z3.simplify(d)):
            n = z3.simplify(d).as_long()
        else:
            raise Unsupported("insertion of an unknown range")
        if n % step or not 0 <= n <= 64 * step:
            raise Unsupported("insertion of an unknown range")
        for i in range(n // step):
            st.ghost[h] = Store(st.ghost[h], self.key_at(ex, st, b, ex.padd(first, step * i)), z3.BoolVal(True))
        return None

    def iterator(self, ex, st, cls, m, args, a, I):
        L = self.loops
        if m in ("operator==", "operator!="):
            return L.compare(m == "operator!=")(ex, st, a, I)
        if m in ("operator*", "operator->"):
            x = L.get(st, a[0])
            if x.kind == "cur":
                return x.loop.elem
            if x.kind == "key":
                if z3.is_false(x.present):
                    st.obls.append(("the end of a container is not dereferenced", z3.BoolVal(False)))
                return z3.simplify(x.k + x.b.base)
            raise Unsupported("dereferencing an iterator outside its loop")
        if m == "operator++":
            return L.advance(ex, st, a, I)
        return NotImplemented

    # ------------------------------------------------------------ nodes
    def fresh(self, ex, st):
        n = z3.FreshConst(I_, "dof")
        self.nonnull(st, n)
        st.pc += [n < SIZE, Not(Select(st.ghost["used"], n))]
        st.ghost["used"] = Store(st.ghost["used"], n, z3.BoolVal(True))
        return n

    def pointer(self, ex, st, cls, m, args, a):
        """std::shared_ptr behind a node: its address"""
        if m == "StdSharedPointer":
            if len(a) == 1:
                if "DiscretizationNode" not in cls:
                    raise Unsupported("creation of a " + cls)
                ex.store(st, a[0], self.fresh(ex, st), ir_ptr())
            elif "StdSharedPointer<" in args:
                ex.store(st, a[0], ex.load(st, a[1], ir_ptr()), ir_ptr())
            else:
                raise Unsupported("creation of a " + cls)
            ex.store(st, ex.padd(a[0], 8), NULL, ir_ptr())
            return None
        if m == "~StdSharedPointer":
            return None
        if m == "operator=":
            ex.store(st, a[0], ex.load(st, a[1], ir_ptr()), ir_ptr())
            return a[0]
        if m == "id":
            return self.node_id(ex, st, a[0])
        if m == "operator->":
            return self.node_id(ex, st, a[0])
        return NotImplemented

    # ------------------------------------------------------------ handlers
    def dispatch(self, ex, st, a, I):
        fn = ex.cur_fn
        k = ex.hcache.get(("parse", fn.name))
        if k is None:
            d = ex.dname(fn)
            c, m, args = parse(d) or ("", "", "")
            k = (d, c, m, args, base(c), self.types(c), fn.name)
            ex.hcache[("parse", fn.name)] = k
        d, cls, m, args, b, ty, nm = k
        for pred, h in ex.contracts.items():
            if re.search(pred, d):
                r = h(ex, st, d, a, I)
                if r is not NotImplemented:
                    return r
        if nm.startswith("ls_"):
            return self.linear_system(ex, st, nm, a)
        if b == "mito::utilities::StdSharedPointer":
            return self.pointer(ex, st, cls, m, args, a)
        if re.match(r"(auto|std::strong_ordering|bool) mito::utilities::operator(<=>|==|!=|<)", d) and "StdSharedPointer" in d:
            x, y = self.node_id(ex, st, a[0]), self.node_id(ex, st, a[1])
            if "operator==" in d:
                return int(ex.decide(st, x == y, None))
            raise Unsupported(d[:80])
        if ty is not None:
            return self.container(ex, st, cls, ty, m, args, a, I, d)
        if re.match(ITER, cls):
            r = self.iterator(ex, st, cls, m, args, a, I)
            if r is not NotImplemented or m in (b.split("::")[-1],):
                return r
        if re.match(r"(bool )?std::(__detail::)?operator(==|!=)", d) and re.search(r"\(" + ITER, d):
            return self.iterator(ex, st, cls, m, args, a, I)
        if "std::set_difference<" in d:
            return self.difference(ex, st, d, a, I)
        if b == "std::insert_iterator" or d.startswith("std::insert_iterator"):
            return NotImplemented
        if b == "mito::utilities::SegmentedVector":
            return self.vector(ex, st, cls, m, args, a)
        if b == "std::vector" and cls.startswith("std::vector<double,"):
            return self.doubles(ex, st, cls, m, args, a)
        if nm == "strlen" or "std::char_traits<char>::" in d or re.match(r"std::__cxx11::basic_string<.*> std::(operator\+|__str_concat)<", d):
            return z3.FreshConst(I_, "length") if I.ty.kind == "int" else None if I.ty.kind == "void" else a[0]
        if "pyre::journal::" in d or "std::basic_ostream<" in d or "std::__cxx11::basic_string<" in (d if cls.startswith("std::") or not cls else cls):
            if I.ty.kind == "ptr":
                return a[0]
            if I.ty.kind == "void":
                return None
            if I.ty.kind == "int":
                return 0
            raise Unsupported(d[:80])
        if m in ("~Dirichlet", "~Manifold"):
            return None
        return NotImplemented

    def record(self, st, *x):
        st.ghost["rec"] = st.ghost["rec"] + (x,)

    def linear_system(self, ex, st, nm, a):
        i32 = lambda v: z3.IntVal(execu.sgn(v, 32)) if isinstance(v, int) else v
        if nm == "ls_create":
            self.record(st, "create", i32(a[1]))
            return None
        if nm == "ls_size":
            return st.ghost["ls_size"]
        if nm == "ls_rhs":
            self.record(st, "rhs", i32(a[1]), a[2])
            return None
        if nm == "ls_matrix":
            self.record(st, "matrix", i32(a[1]), i32(a[2]), a[3])
            return None
        if nm == "ls_solution":
            if st.ghost.get("u") != (a[1].obj.id, a[1].off):
                raise Unsupported("solution into another vector")
            st.ghost["read"] = True
            return None
        raise Unsupported(nm)

    def doubles(self, ex, st, cls, m, args, a):
        if m == "vector":
            self.record(st, "vector", a[1])
            st.ghost["u"] = (a[0].obj.id, a[0].off)
            return None
        if m == "~vector":
            return None
        if m in ("operator[]", "at") and st.ghost.get("u") == (a[0].obj.id, a[0].off):
            i = a[1]
            i = z3.IntVal(i) if isinstance(i, int) else i
            if not st.ghost.get("read"):
                raise Unsupported("value of a vector before the solution is read")
            st.obls.append(("the solution is read at one of its positions", And(i >= 0, i < st.ghost["ls_size"])))
            return z3.simplify(i + 1 + SPACE * 4000)
        raise Unsupported(f"vector::{m}")

    def difference(self, ex, st, d, a, I):
        its = []
        for p in a[:4]:
            if not isinstance(p, Ptr) or not isinstance(getattr(p.obj, "info", None), fold.Iter):
                raise Unsupported("set_difference of unknown ranges")
            its.append(p.obj.info)
        if [i.kind for i in its] != ["begin", "end", "begin", "end"] or its[0].container != its[1].container or its[2].container != its[3].container:
            raise Unsupported("set_difference of parts of containers")
        out = a[4]
        if not isinstance(out, Ptr) or self.box(st, out, False) is None:
            raise Unsupported("set_difference into an unknown place")
        x, y, z = self.box(st, its[0].container), self.box(st, its[2].container), self.box(st, out)
        if x.kind != "set" or y.kind != "set" or z.kind != "set" or not (x.key == y.key == z.key) or "unordered" in x.name + y.name:
            raise Unsupported("set_difference of unordered ranges")
        n = z3.FreshConst(z3.ArraySort(I_, B_), "diff")
        k = z3.Int("k")
        hx, hy, hz = (st.ghost[("has", q.n)] for q in (x, y, z))
        st.ghost["facts"] = st.ghost.get("facts", ()) + tuple(
            forall([k], Select(n, k) == Or(Select(hz, k), And(Select(hx, k), Not(Select(hy, k)))), t) for t in (Select(n, k), Select(hx, k)))
        st.ghost[("has", z.n)] = n
        return [out, NULL] if I.ty.kind == "struct" else None

    def vector(self, ex, st, cls, m, args, a):
        J = ex.job
        if m == "SegmentedVector":
            self.record(st, "elements", a[0])
            return None
        if m == "~SegmentedVector":
            return None
        if m == "emplace":
            if not J.is_elements(a[0]):
                raise Unsupported("another collection")
            L = self.lay[J.X]
            if len(a) != 4:
                raise Unsupported("construction of an element")
            conn = [self.node_id(ex, st, ex.padd(a[3], 16 * i)) for i in range(L[13])]
            self.record(st, "emplace", a[1], a[2], conn)
            e = z3.FreshConst(I_, "element")
            self.nonnull(st, e)
            return e
        if m in ("size", "capacity"):
            n = z3.FreshConst(I_, "size")
            st.pc += [n >= 0, n < 1 << 31]
            return n
        raise Unsupported(f"SegmentedVector::{m}")


def ir_double():
    if "d" not in PS._p:
        class T:
            kind, size, bits = "double", 8, 64
        PS._p["d"] = T()
    return PS._p["d"]


# ---------------------------------------------------------------------- jobs
class Job:
    def __init__(self, ctx, T, X, title):
        self.ctx, self.T, self.X, self.title = ctx, T, X, title
        self.L = T.lay[X]
        self.order, self.dim = ELEMENTS[X]
        self.invariants = {}
        self.nv, self.nd = self.L[14], self.L[13]

    def elements(self, ex, st, container):
        raise Unsupported("iteration over another container")

    def is_elements(self, p):
        return False

    def candidates(self, v):
        return []

    def obj(self, ex, st, n, name):
        o = ex.new_obj(st, name, n, "param")
        ex.objbyid[o.id] = o
        return o

    def node(self, c, i):
        """i-th node of a cell"""
        return Select(z3.Array(f"F{self.L[15] + 16 * i}_8", I_, I_), c)

    def run(self, fname, setup, post, contracts=None):
        ctx, T = self.ctx, self.T
        ex, pv = T.ex_(self, ctx)
        ex.job = self
        ex.contracts = contracts or {}
        x, y = z3.Ints("x y")
        ex.axioms.append(forall([x, y], And(fst(pair_(x, y)) == x, snd(pair_(x, y)) == y), pair_(x, y)))
        st = T.state()
        try:
            args = setup(ex, st)
            if pv.valid(st, z3.BoolVal(False), 3000):
                ctx.failed(f"{self.title}: precondition is satisfiable", "the precondition is contradictory", where=self.title)
                return
            ctx.vacuity_ok()
            paths = ex.run(T.mod.funcs[fname], args, st)
            for p in paths:
                p.kind = p.status
                if p.status == "iteration":
                    p.status = "ret"
            self.pv, self.paths = pv, [p for p in paths if p.status == "ret" and not pv.quick(p, z3.BoolVal(False))]
            self.prepare(ex)
            discharge(ctx, ex, pv, paths, self.title, None, lambda ex, p, A: post(ex, p, p.kind))
            ctx.models |= {ex.dname(T.mod.funcs[n])[:100] for n in ex.contracted}
        except (Unsupported, PathLimit) as e:
            PS.unsupported(ctx, self.title, e)

    def prepare(self, ex):
        pass


class Discretize(Job):
    """function_space(manifold, constraints): the discretizer of the element"""

    def __init__(self, ctx, T, X):
        Job.__init__(self, ctx, T, X, f"function_space<{X}>(manifold, constraints)")
        self.MESH, self.DOM = z3.Array("cell_of_mesh", I_, B_), z3.Array("member_of_domain", I_, B_)

    def elements(self, ex, st, container):
        if container == self.cells:
            return self.MESH, "cell"
        if container == self.facets:
            return self.DOM, "facet"
        raise Unsupported("iteration over another container")

    def is_elements(self, p):
        return isinstance(p, Ptr) and p.obj is self.out and p.off == self.L[1]

    def setup(self, ex, st):
        L, T = self.L, self.T
        man, con = self.obj(ex, st, L[19], "manifold"), self.obj(ex, st, L[20], "constraints")
        mesh, dom = self.obj(ex, st, L[21], "mesh"), self.obj(ex, st, L[22], "domain")
        self.out = self.obj(ex, st, L[0], "space")
        st.cells(man, True)[L[16]] = (8, Ptr(mesh, 0))
        st.cells(con, True)[L[18]] = (8, Ptr(dom, 0))
        self.cells = Ptr(mesh, L[17])
        c, i = z3.Int("c"), 0
        n = [self.node(c, i) for i in range(self.nv)]
        self.host = z3.Function("host", I_, I_)
        facts = [forall([c], Implies(Select(self.MESH, c), And(c > 0, c < SIZE, z3.Distinct(*n), *[And(x > 0, x < SIZE) for x in n])), Select(self.MESH, c))]
        if self.dim == 1:
            self.facets = None
            T.new_box(st, Ptr(dom, 0), "set", "id", None, "std::unordered_set", self.DOM)
            h = self.host(c)
            facts.append(forall([c], Implies(Select(self.DOM, c), And(c > 0, c < SIZE, Select(self.MESH, h), Or(*[c == self.node(h, i) for i in range(self.nv)]))), Select(self.DOM, c)))
        else:
            self.facets = Ptr(dom, L[28])
            h = self.host(c)
            a, b = self.facet_nodes(c)
            facts.append(forall([c], Implies(Select(self.DOM, c), And(c > 0, c < SIZE, Select(self.MESH, h), Or(*[
                And(a == self.node(h, i), b == self.node(h, j)) for i in range(3) for j in range(3) if i != j]))), Select(self.DOM, c)))
        st.ghost["facts"] = tuple(facts)
        return [Ptr(man, 0), Ptr(con, 0), Ptr(self.out, 0)]

    def facet_nodes(self, c):
        return [Select(z3.Array(f"F{self.L[29] + 16 * i}_8", I_, I_), c) for i in range(2)]

    def roles(self, v):
        """the map of the nodes, the maps of the edges, the constrained nodes"""
        bx = v.st.ghost["boxes"]
        nm = bx.get((self.out.id, self.L[4]))
        cs = bx.get((self.out.id, self.L[3]))
        mm = [b for b in v.boxes() if b is not nm and b.kind == "map" and b.val == "disc" and b.key == "pair"]
        return nm, mm, cs

    def keys(self, v, nm, a, b):
        """the possible numbers of the edge with nodes a, b"""
        F_ = v.vals(nm)
        x, y = Select(F_, a), Select(F_, b)
        yield "dofs", pair_(If(x < y, x, y), If(x < y, y, x))
        yield "nodes", pair_(If(a < b, a, b), If(a < b, b, a))

    def candidates(self, v):
        k, l = z3.Ints("k l")
        nm, mms, cs = self.roles(v)
        maps = [b for b in v.boxes() if b.kind == "map" and b.val == "disc"]
        out = []
        for b in maps:
            H, F_ = v.has(b), v.vals(b)
            out.append((f"values of {b.n} are nodes created", forall([k], Implies(Select(H, k), And(Select(v.used(), Select(F_, k)), Select(F_, k) > 0, Select(F_, k) < SIZE)), Select(H, k))))
            out.append((f"{b.n} is injective", forall([k, l], Implies(And(Select(H, k), Select(H, l), Select(F_, k) == Select(F_, l)), k == l), z3.MultiPattern(Select(H, k), Select(H, l)))))
            e = v.entry
            if b in e.boxes():
                He, Fe = e.has(b), e.vals(b)
                out.append((f"{b.n} keeps its values", forall([k], Implies(Select(He, k), And(Select(H, k), Select(F_, k) == Select(Fe, k))), Select(He, k))))
                out.append((f"{b.n} has no new keys", forall([k], Select(H, k) == Select(He, k), Select(H, k))))
        for b, c in itertools.combinations(maps, 2):
            out.append((f"{b.n} and {c.n} have no value in common", forall([k, l], Implies(And(Select(v.has(b), k), Select(v.has(c), l)), Select(v.vals(b), k) != Select(v.vals(c), l)),
                                                                           z3.MultiPattern(Select(v.has(b), k), Select(v.has(c), l)))))
        if v.sort == "cell" and nm is not None:
            n = [self.node(k, i) for i in range(self.nv)]
            H = v.has(nm)
            out.append(("the nodes of the cells visited are in the map", forall([k], Implies(Select(v.V, k), And(*[Select(H, x) for x in n])), Select(v.V, k))))
            for m in mms:
                for q, name in enumerate(["dofs", "nodes"]):
                    out.append((f"the edges of the cells visited are in the map {m.n}, by {name}", forall([k], Implies(Select(v.V, k), And(*[
                        Select(v.has(m), list(self.keys(v, nm, n[i], n[j]))[q][1]) for i, j in EDGES])), Select(v.V, k))))
        return out

    # ---- obligations
    def prepare(self, ex):
        """what each loop does"""
        nd, nv = self.nd, self.nv
        self.choice = None
        its = [p for p in self.paths if p.kind == "iteration"]
        rets = [p for p in self.paths if p.kind == "ret"]
        if not rets:
            raise Unsupported("no path returns")
        self.loopsof = {}
        for p in its:
            lp = p.ghost["cut"][-1]
            self.loopsof.setdefault(lp.tag, []).append(p)
        emplaces = 0
        for tag, ps in self.loopsof.items():
            lp = ps[0].ghost["cut"][-1]
            n = {sum(1 for r in p.ghost["rec"] if r[0] == "emplace") for p in ps}
            if lp.sort == "cell":
                if len(n) != 1:
                    raise Unsupported("cells with different numbers of elements")
                emplaces += n.pop()
            elif n != {0}:
                raise Unsupported("elements created by another loop")
        if emplaces != 1:
            raise Unsupported("more or less than one element for each cell")
        for p in rets:
            if any(r[0] == "emplace" for r in p.ghost["rec"]) or any(r[0] == "emplace" for s, rec in p.ghost.get("after", ()) for r in rec):
                raise Unsupported("elements created outside a loop")
        if nd > nv:
            opts = None
            for p in its:
                if not any(r[0] == "emplace" for r in p.ghost["rec"]):
                    continue
                ok = {(m.n, q) for m, q, g in self.mid(ex, p) if self.pv.quick(p, g)}
                opts = ok if opts is None else opts & ok
            if opts:
                self.choice = sorted(opts)[0]
        self.adds = {}
        whole = set(range(3 if nd > nv else 2 if self.dim > 1 else 1))
        got = set()
        for tag, ps in self.loopsof.items():
            lp = ps[0].ghost["cut"][-1]
            if lp.sort == "cell":
                continue
            for n in range(len(whole), -1, -1):
                for S in itertools.combinations(sorted(whole), n):
                    if tag not in self.adds and all(self.pv.quick(p, self.added(ex, p, S)) for p in ps):
                        self.adds[tag] = S
            got |= set(self.adds.get(tag, whole))
        self.missing = whole - got

    def mid(self, ex, p):
        """what the dofs on the edges of the element may be"""
        lp = p.ghost["cut"][-1]
        v = View(self, ex, p)
        nm, mms, cs = self.roles(v)
        conn = [r for r in p.ghost["rec"] if r[0] == "emplace"][0][3]
        n = [self.node(lp.x, i) for i in range(self.nv)]
        for m in mms:
            for q in range(2):
                yield m, q, And(*[And(Select(v.has(m), k), conn[self.nv + e] == Select(v.vals(m), k))
                                  for e, (i, j) in enumerate(EDGES) for k in [list(self.keys(v, nm, n[i], n[j]))[q][1]]])

    def dofs_of_facet(self, ex, p, x):
        v = View(self, ex, p)
        nm, mms, cs = self.roles(v)
        n = [x] if self.dim == 1 else self.facet_nodes(x)
        out = [Select(v.vals(nm), y) for y in n]
        if self.nd > self.nv:
            if self.choice is None:
                return out + [z3.Int("no_edge_map")]
            m = [b for b in mms if b.n == self.choice[0]][0]
            out.append(Select(v.vals(m), list(self.keys(v, nm, *n))[self.choice[1]][1]))
        return out

    def added(self, ex, p, S):
        lp = p.ghost["cut"][-1]
        v = View(self, ex, p)
        cs = self.roles(v)[2]
        d = z3.Int("d_any")
        D = self.dofs_of_facet(ex, p, lp.x)
        return Select(v.has(cs), d) == Or(Select(lp.before.has(cs), d), *[d == D[i] for i in S])

    def post(self, ex, p, kind):
        v = View(self, ex, p)
        nm, mms, cs = self.roles(v)
        k = z3.Int("k_any")
        if kind == "iteration":
            lp = p.ghost["cut"][-1]
            for b in [nm] + mms:
                H, F_ = v.has(b), v.vals(b)
                if b not in lp.before.boxes():
                    continue
                H0, F0 = lp.before.has(b), lp.before.vals(b)
                yield "nodes that have a degree of freedom keep it", Implies(Select(H0, k), And(Select(H, k), Select(F_, k) == Select(F0, k)))
            if lp.sort == "cell":
                d = z3.Int("d_any")
                yield "the elements constrain no node", Select(v.has(cs), d) == Select(lp.before.has(cs), d)
                em = [r for r in p.ghost["rec"] if r[0] == "emplace"]
                if not em:
                    return
                _, cell, coords, conn = em[0]
                yield "the element is built on the cell", self.T.num(ex, cell) == lp.x
                for i in range(self.nv):
                    n = self.node(lp.x, i)
                    yield f"degree of freedom {i} of the element is that of node {i} of the cell", And(Select(v.has(nm), n), conn[i] == Select(v.vals(nm), n))
                if self.nd > self.nv:
                    g = [g for m, q, g in self.mid(ex, p) if (m.n, q) == self.choice] if self.choice else [z3.BoolVal(False)]
                    yield "degrees of freedom on the edges are those of the edges", g[0]
            else:
                S = self.adds.get(lp.tag)
                yield "the constrained degrees of freedom are those of the nodes (and edges) of the domain", self.added(ex, p, S) if S is not None else z3.BoolVal(False)
            return
        yield "the constrained degrees of freedom are those of the nodes (and edges) of the domain", z3.BoolVal(not self.missing)
        H, F_ = v.has(nm), v.vals(nm)
        c, x, y = z3.Ints("c_any x_any y_any")
        for i in range(self.nv):
            yield f"node {i} of every cell has a degree of freedom", Implies(Select(self.MESH, c), Select(H, self.node(c, i)))
        yield "different nodes have different degrees of freedom", Implies(And(Select(H, x), Select(H, y), x != y), Select(F_, x) != Select(F_, y))
        if self.nd > self.nv:
            if not self.choice:
                yield "the degrees of freedom on edges", z3.BoolVal(False)
                return
            m = [b for b in mms if b.n == self.choice[0]][0]
            a, b, s, t = z3.Ints("a_any b_any s_any t_any")
            e1, e2 = [list(self.keys(v, nm, *q))[self.choice[1]][1] for q in ((a, b), (s, t))]
            known = And(*[Select(H, q) for q in (a, b, s, t)], a != b, s != t, Select(v.has(m), e1), Select(v.has(m), e2))
            yield "two edges have the same degree of freedom exactly when they have the same nodes", \
                Implies(known, (Select(v.vals(m), e1) == Select(v.vals(m), e2)) == Or(And(a == s, b == t), And(a == t, b == s)))
            yield "a node and an edge have different degrees of freedom", Implies(And(Select(H, x), Select(v.has(m), y)), Select(F_, x) != Select(v.vals(m), y))
            for i, j in EDGES:
                yield f"edge {i}-{j} of every cell has a degree of freedom", Implies(Select(self.MESH, c), Select(v.has(m), list(self.keys(v, nm, self.node(c, i), self.node(c, j)))[self.choice[1]][1]))


def job_discretize(ctx, T, X):
    J = Discretize(ctx, T, X)
    J.run(f"discretize_{X}", J.setup, J.post)


class OnSpace(Job):
    """functions of a function space: its elements and their degrees of freedom"""

    def space(self, ex, st):
        L, T = self.L, self.T
        self.fs = self.obj(ex, st, L[0], "space")
        self.ELS, self.dof, self.CON = [z3.Array(n, I_, B_) for n in ("element_of_space", "dof", "constrained")]
        T.new_box(st, Ptr(self.fs, L[3]), "set", "disc", None, "std::set", self.CON)
        T.new_box(st, Ptr(self.fs, L[4]), "map", "id", "disc", "std::unordered_map", z3.Array("in_node_map", I_, B_))
        e = z3.Int("e")
        n = self.conn(e)
        st.ghost["facts"] = (
            forall([e], Implies(Select(self.ELS, e), And(e > 0, e < SIZE, z3.Distinct(*n), *[And(x > 0, x < SIZE, Select(self.dof, x)) for x in n])), Select(self.ELS, e)),
            forall([e], Implies(Select(self.dof, e), And(e > 0, e < SIZE)), Select(self.dof, e)),
            forall([e], Implies(Select(self.CON, e), Select(self.dof, e)), Select(self.CON, e)))
        return Ptr(self.fs, 0)

    def conn(self, e):
        return [Select(z3.Array(f"F{self.L[12] + 16 * i}_8", I_, I_), e) for i in range(self.nd)]

    def elements(self, ex, st, container):
        if container == Ptr(self.fs, self.L[1]):
            return self.ELS, "element"
        raise Unsupported("iteration over another container")

    def candidates(self, v):
        k, l, j = z3.Ints("k l j")
        out = []
        old = {b.n for b in v.entry.boxes()}
        zero = real_token(R.const(0))
        for b in v.boxes():
            if b.key != "disc" or b.name == "param" or b.n not in old:
                continue
            H = v.has(b)
            if H.eq(self.CON):
                continue
            D, C = Select(self.dof, k), Select(self.CON, k)
            out += [(f"{b.n}: degrees of freedom", forall([k], Implies(Select(H, k), D), Select(H, k))),
                    (f"{b.n}: not constrained", forall([k], Implies(Select(H, k), Not(C)), Select(H, k))),
                    (f"{b.n}: constrained", forall([k], Implies(Select(H, k), C), Select(H, k))),
                    (f"{b.n}: all constrained", forall([k], Implies(C, Select(H, k)), Select(self.CON, k)))]
            if v.sort == "element":
                out.append((f"{b.n}: those of the elements visited that are not constrained", forall([k], Implies(Select(v.V, k), And(*[Or(Select(H, x), Select(self.CON, x)) for x in self.conn(k)])), Select(v.V, k))))
                out.append((f"{b.n}: those of the elements visited", forall([k], Implies(Select(v.V, k), And(*[Select(H, x) for x in self.conn(k)])), Select(v.V, k))))
            elif isinstance(v.sort, Box) and v.sort.n != b.n:
                out.append((f"{b.n}: those visited", forall([k], Implies(Select(v.V, k), Select(H, k)), Select(v.V, k))))
                out.append((f"{b.n}: those visited that are not constrained", forall([k], Implies(Select(v.V, k), Or(Select(H, k), C)), Select(v.V, k))))
                out.append((f"{b.n}: those visited only", forall([k], Implies(Select(H, k), Select(v.V, k)), Select(H, k))))
            if b.kind != "map":
                continue
            F_, f = v.vals(b), Select(v.vals(b), k)
            He, Fe = v.entry.has(b), v.entry.vals(b)
            out.append((f"{b.n}: keeps its values", forall([k], Implies(Select(He, k), And(Select(H, k), f == Select(Fe, k))), Select(He, k))))
            out.append((f"{b.n}: no new keys", forall([k], Select(H, k) == Select(He, k), Select(H, k))))
            if b.val == "double":
                out.append((f"{b.n}: zero", forall([k], Implies(Select(H, k), f == zero), Select(H, k))))
                out += self.solution(v, b, k)
            if b.val == "int":
                out += [(f"{b.n}: constrained have no equation", forall([k], Implies(And(Select(H, k), C), f == -1), Select(H, k))),
                        (f"{b.n}: no equation", forall([k], Implies(Select(H, k), f == -1), Select(H, k))),
                        (f"{b.n}: different equations", forall([k, l], Implies(And(Select(H, k), Select(H, l), f == Select(F_, l), f >= 0), k == l), z3.MultiPattern(Select(H, k), Select(H, l)))),
                        (f"{b.n}: unconstrained have an equation", forall([k], Implies(And(Select(H, k), Not(C)), f >= 0), Select(H, k)))]
                for q, c in sorted(v.ints.items(), key=lambda t: (t[0][1], t[0][2])):
                    if c is None or not z3.is_expr(c):
                        continue
                    nm = f"{q[1]}.{q[2]}"
                    out += [(f"{nm} is not negative", c >= 0),
                            (f"{b.n}: equations below {nm}", forall([k], Implies(Select(H, k), f < c), Select(H, k)))]
                    if v.assume:
                        inv = z3.Function(f"inv_{b.n}_{v.assume}", I_, I_)
                        w = inv(j)
                        out.append((f"{b.n}: every equation below {nm} is taken", forall([j], Implies(And(j >= 0, j < c), And(Select(H, w), Select(F_, w) == j)), w)))
                    else:
                        out.append((f"{b.n}: every equation below {nm} is taken", forall([j], Implies(And(j >= 0, j < c), Or(*[And(Select(H, w), Select(F_, w) == j) for w in self.witnesses(v, b, j)])))))
        return out

    def solution(self, v, b, k):
        return []

    @staticmethod
    def witnesses(v, b, j):
        out = []
        for kind, x in v.st.ghost.get("witness", ()):
            out.append(z3.Function(f"inv_{b.n}_{x}", I_, I_)(j) if kind == "at" else x)
        return out or [z3.IntVal(0)]


def covers(J, H, b=None):
    """H is the set of the degrees of freedom of the elements"""
    e, k = z3.Ints("e_any k_any")
    for i, n in enumerate(J.conn(e)):
        yield f"degree of freedom {i} of every element is in the collection", Implies(Select(J.ELS, e), Select(H, n))
    yield "nothing else than degrees of freedom is in the collection", Implies(Select(H, k), Select(J.dof, k))


class FieldJob(OnSpace):
    """FunctionSpace::fem_field"""

    def setup(self, ex, st):
        s = self.space(ex, st)
        self.label = self.obj(ex, st, 32, "label")
        self.out = self.obj(ex, st, self.L[27], "field")
        return [s, Ptr(self.label, 0), Ptr(self.out, 0)]

    def post(self, ex, p, kind):
        if kind == "iteration":
            return
        b = self.T.box(p, Ptr(self.out, self.L[25] + self.L[26]))
        v = View(self, ex, p)
        yield from covers(self, v.has(b))
        k = z3.Int("k_any")
        yield "the field is zero", Implies(Select(v.has(b), k), Select(v.vals(b), k) == real_token(R.const(0)))


def job_field(ctx, T, X):
    J = FieldJob(ctx, T, X, f"FunctionSpace<{X}>::fem_field")
    J.run(f"field_{X}", J.setup, J.post)


class SystemJob(OnSpace):
    """construction of a discrete system: the numbering of the equations"""

    def setup(self, ex, st):
        s = self.space(ex, st)
        self.w, self.label = self.obj(ex, st, 64, "weakform"), self.obj(ex, st, 32, "label")
        self.out = self.obj(ex, st, self.L[5], "system")
        return [s, Ptr(self.w, 0), Ptr(self.label, 0), Ptr(self.out, 0)]

    def fem_field(self, ex, st, d, a, I):
        """contract of fem_field (job_field)"""
        p = ex.padd(a[0], self.L[25] + self.L[26])
        n = z3.FreshConst(z3.ArraySort(I_, B_), "field")
        if a[1] != Ptr(self.fs, 0):
            raise Unsupported("field on another space")
        b = self.T.new_box(st, p, "map", "disc", "double", "param", n)
        st.ghost["facts"] += tuple(self.full(n))
        k = z3.Int("k")
        st.ghost["facts"] += (forall([k], Implies(Select(n, k), Select(ex.field(st, *b.vfield()), k) == real_token(R.const(0))), Select(n, k)),)
        return None

    def full(self, n):
        e, k = z3.Ints("e k")
        return (forall([e], Implies(Select(self.ELS, e), And(*[Select(n, x) for x in self.conn(e)])), Select(self.ELS, e)),
                forall([k], Implies(Select(n, k), Select(self.dof, k)), Select(n, k)))

    def post(self, ex, p, kind):
        if kind == "iteration":
            yield "the system is not created inside a loop", z3.BoolVal(not any(r[0] == "create" for r in p.ghost["rec"]))
            return
        L, T = self.L, self.T
        b = T.box(p, Ptr(self.out, L[8]))
        v = View(self, ex, p)
        H, F_ = v.has(b), v.vals(b)
        yield from covers(self, H)
        c = p.cells(self.out)

        def cell(o):
            x = c.get(o)
            return None if x is None else x[1]
        n = cell(L[11])
        n = z3.IntVal(execu.sgn(n, 32)) if isinstance(n, int) else n
        if not z3.is_expr(n):
            raise Unsupported("number of equations")
        k, l, j = z3.Ints("k_any l_any j_any")
        C = Select(self.CON, k)
        f = Select(F_, k)
        yield "constrained degrees of freedom have no equation", Implies(And(Select(H, k), C), f == -1)
        yield "unconstrained degrees of freedom have an equation, between zero and the number of equations", Implies(And(Select(H, k), Not(C)), And(f >= 0, f < n))
        yield "different degrees of freedom have different equations", Implies(And(Select(H, k), Select(H, l), k != l, f >= 0), f != Select(F_, l))
        v.assume = None
        yield "the equations are consecutive: every number is taken", Implies(And(j >= 0, j < n), Or(*[And(Select(H, w), Select(F_, w) == j) for w in self.witnesses(v, b, j)]))
        cr = [r for q in p.ghost.get("after", ()) for r in q[1] if r[0] == "create"] + [r for r in p.ghost["rec"] if r[0] == "create"]
        yield "the linear system is created once, with the number of equations", And(z3.BoolVal(len(cr) == 1), cr[0][1] == n) if cr else z3.BoolVal(False)
        yield "the system is that of the function space and the weak form", z3.BoolVal(cell(L[6]) == Ptr(self.fs, 0) and cell(L[7]) == Ptr(self.w, 0))


def job_system(ctx, T, X):
    J = SystemJob(ctx, T, X, f"discrete_system(function_space<{X}>, weakform)")
    J.run(f"system_{X}", J.setup, J.post, {r"::fem_field<double>\(": J.fem_field})


class OnSystem(OnSpace):
    """functions of a discrete system that has been constructed"""

    def system(self, ex, st):
        L, T = self.L, self.T
        self.space(ex, st)
        self.w = self.obj(ex, st, 64, "weakform")
        self.sys = self.obj(ex, st, L[5], "system")
        c = st.cells(self.sys, True)
        c[L[6]], c[L[7]] = (8, Ptr(self.fs, 0)), (8, Ptr(self.w, 0))
        self.n = z3.Int("n_equations")
        c[L[11]] = (4, self.n)
        st.ghost["ls_size"] = self.n
        st.pc += [self.n >= 0, self.n < 1 << 31]
        self.HE = z3.Array("in_equation_map", I_, B_)
        b = self.eqs = T.new_box(st, Ptr(self.sys, L[8]), "map", "disc", "int", "param", self.HE)
        self.EQ = ex.field(st, *b.vfield())
        self.HF = z3.Array("in_solution", I_, B_)
        self.fld = T.new_box(st, Ptr(self.sys, L[9] + L[25] + L[26]), "map", "disc", "double", "std::unordered_map", self.HF)
        k = z3.Int("k")
        e = z3.Int("e")
        st.ghost["facts"] += (
            forall([k], Implies(Select(self.HE, k), And(Select(self.dof, k), Select(self.HF, k), Select(self.EQ, k) >= -1, Select(self.EQ, k) < self.n)), Select(self.HE, k)),
            forall([e], Implies(Select(self.ELS, e), And(*[Select(self.HE, x) for x in self.conn(e)])), Select(self.ELS, e)))
        return Ptr(self.sys, 0)

    def eq(self, k):
        return Select(self.EQ, k)


def real(n, memo=None):
    """an expression of the code as a term of the solver"""
    if n.op == "c":
        return z3.RealVal(str(n.args[0]))
    if n.op == "v":
        return z3.Real(str(n.args[0]))
    if n.op in ("+", "*"):
        x = [real(a) for a in n.args]
        return z3.Sum(x) if n.op == "+" else z3.Product(x)
    raise Unsupported("value added to the system: " + n.op)


class Assemble(OnSystem):
    def setup(self, ex, st):
        s = self.system(ex, st)
        # the entries of the blocks: a matrix and a vector in memory
        self.A, self.B = {}, {}
        e = Ex(self.T.mod)
        size, second = self.L[23], self.L[24]
        for a in range(self.nd):
            for b in range(self.nd):
                self.A[a, b] = self.entry(e, f"matrix_entry_{self.X}", 0, second, (a, b))
            self.B[a] = self.entry(e, f"vector_entry_{self.X}", second, size, (a,))
        return [s]

    def entry(self, e, f, u, v, args):
        st = State()
        o = e.new_obj(st, "block", v - u, "param")
        for k in range(0, v - u, 8):
            st.cells(o, True)[k] = (8, R.var(f"block_{u + k}"))
        p = e.run(self.T.mod.funcs[f], [Ptr(o, 0), *args], st)
        if len(p) != 1 or not isinstance(p[0].retval, R.Node):
            raise Unsupported("entry of a block")
        return p[0].retval

    def blocks(self, ex, st, d, a, I):
        if a[1] != Ptr(self.w, 0):
            raise Unsupported("blocks of another weak form")
        lp = st.ghost["cut"][-1]
        x = self.T.num(ex, a[2])
        st.obls.append(("the blocks are those of the element visited", x == lp.x))
        for k in range(0, self.L[23], 8):
            ex.store(st, ex.padd(a[0], k), R.var(f"block_{k}"), ir_double())
        return None

    def prepare(self, ex):
        its = [p for p in self.paths if p.kind == "iteration"]
        loops = {}
        for p in its:
            loops.setdefault(p.ghost["cut"][-1].tag, []).append(p)
        self.adds = {k: [t for t, ps in loops.items() if any(r[0] == k for p in ps for r in p.ghost["rec"])] for k in ("rhs", "matrix")}
        for k, t in self.adds.items():
            if len(t) != 1:
                raise Unsupported(f"{k}: added in {len(t)} loops")
        if any(p.ghost["cut"][-1].sort != "element" for p in its):
            raise Unsupported("a loop over something else than elements")

    def post(self, ex, p, kind):
        if kind != "iteration":
            yield "nothing is added outside the elements", z3.BoolVal(not p.ghost["rec"] and not any(r for s, r in p.ghost.get("after", ())))
            return
        lp = p.ghost["cut"][-1]
        n = self.conn(lp.x)
        E = [self.eq(x) for x in n]
        row, col = z3.Ints("row col")
        zero = z3.RealVal(0)
        if lp.tag in self.adds["rhs"]:
            got = z3.Sum([If(r[1] == row, real(r[2]), zero) for r in p.ghost["rec"] if r[0] == "rhs"] + [zero])
            want = z3.Sum([If(And(E[a] == row, E[a] != -1), real(self.B[a]), zero) for a in range(self.nd)])
            yield "the right hand side receives the entries of the unconstrained nodes at their equations", got == want
        if lp.tag in self.adds["matrix"]:
            got = z3.Sum([If(And(r[1] == row, r[2] == col), real(r[3]), zero) for r in p.ghost["rec"] if r[0] == "matrix"] + [zero])
            want = z3.Sum([If(And(E[a] == row, E[b] == col, E[a] != -1, E[b] != -1), real(self.A[a, b]), zero) for a in range(self.nd) for b in range(self.nd)])
            yield "the matrix receives the entries of the pairs of unconstrained nodes at their equations", got == want


def job_assemble(ctx, T, X):
    J = Assemble(ctx, T, X, f"DiscreteSystem<{X}>::assemble")
    J.run(f"assemble_{X}", J.setup, J.post, {r"Weakform<.*>::compute_blocks\(": J.blocks})


class Read(OnSystem):
    def setup(self, ex, st):
        s = self.system(ex, st)
        self.F0 = ex.field(st, *self.fld.vfield())
        self.SOL = z3.Array(f"F{SPACE * 4000 + 1}_8", I_, I_)
        return [s]

    def want(self, F_, k):
        return Select(F_, k) == If(self.eq(k) == -1, Select(self.F0, k), Select(self.SOL, self.eq(k)))

    def candidates(self, v):
        k = z3.Int("k")
        if self.fld not in v.boxes():
            return []
        F_ = v.vals(self.fld)
        out = []
        if isinstance(v.sort, Box):
            out.append(("the values visited are those of the solution", forall([k], Implies(Select(v.V, k), self.want(F_, k)), Select(v.V, k))))
            out.append(("the values not visited are as before", forall([k], Implies(Not(Select(v.V, k)), Select(F_, k) == Select(self.F0, k)), Select(F_, k))))
            out.append(("the solution keeps its nodes", forall([k], Select(v.has(self.fld), k) == Select(self.HF, k), Select(v.has(self.fld), k))))
        return out

    def post(self, ex, p, kind):
        if kind == "iteration":
            return
        v = View(self, ex, p)
        k = z3.Int("k_any")
        yield "the solution at an unconstrained node is that of its equation; other values do not change", Implies(Select(self.HE, k), self.want(v.vals(self.fld), k))
        yield "the solution is defined at the same nodes", Select(v.has(self.fld), k) == Select(self.HF, k)
        yield "the equation map does not change", And(Select(v.has(self.eqs), k) == Select(self.HE, k), Select(v.vals(self.eqs), k) == self.eq(k))
        n = [r[1] for r in p.ghost["rec"] + tuple(r for s, q in p.ghost.get("after", ()) for r in q) if r[0] == "vector"]
        yield "room for all the equations", z3.BoolVal(False) if len(n) != 1 else (z3.IntVal(n[0]) if isinstance(n[0], int) else n[0]) == self.n


def job_read(ctx, T, X):
    J = Read(ctx, T, X, f"DiscreteSystem<{X}>::read_solution")
    J.run(f"read_{X}", J.setup, J.post)


class ElementJob(Job):
    def setup(self, ex, st):
        self.cs, self.out = self.obj(ex, st, 64, "coordinates"), self.obj(ex, st, self.L[30], "element")
        n = self.obj(ex, st, 16 * self.nd, "nodes")
        self.N = [z3.Int(f"node{i}") for i in range(self.nd)]
        for i, x in enumerate(self.N):
            st.cells(n, True)[16 * i] = (8, x)
            st.cells(n, True)[16 * i + 8] = (8, NULL)
        c = z3.Int("cell")
        self.T.nonnull(st, c, *self.N)
        st.pc += [x < SIZE for x in [c] + self.N]
        return [c, Ptr(self.cs, 0), Ptr(n, 0), Ptr(self.out, 0)]

    def coordinates(self, ex, st, d, a, I):
        o = ex.new_obj(st, "coordinates", 24, "ghost")
        for i in range(3):
            st.cells(o, True)[8 * i] = (8, R.var(f"x{o.id}_{i}"))
        return Ptr(o, 0)

    def post(self, ex, p, kind):
        for i in range(self.nd):
            c = p.cells(self.out).get(self.L[12] + 16 * i)
            yield f"degree of freedom {i} of the element is the one given", c[1] == self.N[i] if c is not None and z3.is_expr(c[1]) else z3.BoolVal(False)


def job_element(ctx, T, X):
    J = ElementJob(ctx, T, X, f"element {X}")
    J.run(f"element_{X}", J.setup, J.post, {r"CoordinateSystem<.*>::coordinates\(": J.coordinates})
