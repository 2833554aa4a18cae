"""Contracts on discrete fields and on the collection of the nodes of a mesh.

std::unordered_map, std::unordered_set and std::string are ghosts.  A function is executed from an arbitrary map: what it
asks about the keys it was given is decided by the case (the key is there or not), what it inserts, and where, is recorded;
a key that it was not given is outside the dialect.  The loops over cells, nodes, points and entries are cut at the iterator
protocol (engine/fold.py): an arbitrary element is visited in an arbitrary state of the memory that the loop writes; the
contract says what that visit does, and that nothing happens outside the visits."""
import re
import z3
from engine import frontend as F, ir, execu, fold, opaque, reals as R
from engine.execu import Ex, State, Ptr, NULL, UNDEF, Unsupported, PathLimit
from engine.names import parse, base
from . import pool_spec as PS
from .pool_spec import Prover, discharge

B = z3.BoolVal
MESHES = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]
FIELDS = [(1, "s"), (2, "s"), (3, "s"), (2, "v"), (3, "v")]
NODE_ITER = r"std::__detail::_Node_(const_)?iterator(_base)?<"


class Discrete:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ir.Module(F.bitcode(F.harness("discrete.cc"), "O0raw"))
        e = Ex(self.mod)

        def layout(f, n):
            out = []
            for i in range(n):
                p = e.run(self.mod.funcs[f], [i])
                if len(p) != 1 or not isinstance(p[0].retval, int):
                    raise Unsupported("layout of the classes")
                out.append(p[0].retval)
            return out
        self.fields = {(D, t): layout(f"field_layout_{D}_{t}", 8) for D, t in FIELDS}
        self.meshes = {(N, D): layout(f"mesh_layout_{N}_{D}", 4) for N, D in MESHES}
        self.clouds = {D: layout(f"cloud_layout_{D}", 5) for D in (1, 2, 3)}


class Job:
    def __init__(self, ctx, T, title):
        self.ctx, self.T, self.title = ctx, T, title
        self.contracts = {}
        self.present = False        # is the key that was given in the map
        self.elements = {}          # container -> element

    # ------------------------------------------------------------ the run
    def run(self, fname, setup, post, loop=None, throws=False):
        ctx, T = self.ctx, self.T
        try:
            ex = Ex(T.mod, max_steps=400000, max_paths=200)
            ex.objbyid = {}
            opaque.install(ex)
            self.ex = ex
            st = State()
            st.ghost["rec"] = ()
            st.ghost["strings"] = {}
            ex.patterns.append((lambda d, f: "std::__detail::operator" in d and "_Node_" in d or any(re.search(x, d) for x in self.contracts), self.before))
            self.loops = fold.Fold(ex, self.element, havoc=self.arbitrary)
            ex.patterns.append((lambda d, f: re.search(r"SegmentedContainerIterator<mito::utilities::Repository<.*>::operator\*\(\)", d) is not None, self.pointer))
            self.loops.install(fold.SEGVEC + [
                ("begin", lambda d, f: re.search(r"^(std::unordered_(set|map)|mito::utilities::Repository)<.*>::c?begin\(\)( const)?$", d) is not None),
                ("end", lambda d, f: re.search(r"^(std::unordered_(set|map)|mito::utilities::Repository)<.*>::c?end\(\)( const)?$", d) is not None),
                ("ne", lambda d, f: "operator!=<mito::utilities::Repository" in d),
                ("eq", lambda d, f: "operator==<mito::utilities::Repository" in d),
                ("inc", lambda d, f: re.search(NODE_ITER + r".*>::operator\+\+\((int)?\)$", d) is not None),
                ("deref", lambda d, f: re.search(NODE_ITER + r".*>::operator(\*|->)\(\)", d) is not None)])
            ex.patterns.append((lambda d, f: True, self.dispatch))
            self.count = 0
            self.entry0 = {}
            args = setup(st)
            ctx.vacuity_ok()
            paths = ex.run(T.mod.funcs[fname], args, st)
            kinds = set()
            for p in paths:
                p.kind = p.status
                kinds.add(p.kind)
                if p.status == "iteration" or p.status == "throw" and throws:
                    p.status = "ret"

            def all_(ex, p, A):
                if p.kind == "iteration":
                    yield "one loop", B(len(p.ghost["cut"]) == 1)
                elif loop is not None:
                    done = [x for x in p.ghost.get("loops", ())]
                    yield "the loop is not left early", B(not p.ghost.get("cut") and len(done) == 1)
                yield from ((n, B(bool(g))) for n, g in post(p))
            discharge(ctx, ex, Prover(ctx, ex), paths, self.title, None, all_)
            ctx.models |= {ex.dname(T.mod.funcs[n])[:100] for n in ex.contracted}
            if loop and "iteration" not in kinds:
                ctx.failed(f"{self.title}: {loop}", "no loop over them", where=self.title)
            elif loop:
                ctx.discharged(f"{self.title}: {loop}", "path", where=self.title)
        except (Unsupported, PathLimit, KeyError) as e:
            PS.unsupported(ctx, self.title, e)

    def arbitrary(self, ex, st, k, old, size):
        if old is not None and isinstance(old[1], R.Node):
            self.count += 1
            return R.var(f"any{k[0]}_{k[1]}")
        return UNDEF

    def element(self, ex, st, container, lp):
        for c, e in self.elements.items():
            if c == (container.obj.id, container.off):
                return e
        raise Unsupported(f"a loop over a container that was not given: {container} {self.elements}")

    def pointer(self, ex, st, a, I):
        """the iterators of a repository give a pointer to the resource, by value"""
        e = self.loops.deref(ex, st, a[-1:], I)
        if len(a) == 1:
            return self.key(st, e)
        self.put(st, a[0].obj, a[0].off, self.key(st, e))
        return None

    def obj(self, st, name, n):
        o = self.ex.new_obj(st, name, n, "param")
        self.ex.objbyid[o.id] = o
        return o

    def record(self, st, *x):
        st.ghost["rec"] = st.ghost["rec"] + (x,)

    def put(self, st, o, off, v):
        st.cells(o, True)[off] = (8, v)

    def handle(self, st, name, target=None, std=True):
        """a (shared) pointer to an object of its own"""
        t = target or self.obj(st, name, 8)
        h = self.obj(st, name + "_handle", 16 if std else 8)
        self.put(st, h, 0, Ptr(t, 0))
        if std:
            self.put(st, h, 8, NULL)
        return Ptr(h, 0), Ptr(t, 0)

    def key(self, st, p):
        c = st.cells(p.obj).get(p.off)
        if c is None or not isinstance(c[1], Ptr):
            raise Unsupported("a key that was not given")
        return c[1]

    def content(self, st, p, n):
        out = []
        z = st.cells(p.obj).get(("zero",)) or ()
        for i in range(0, n, 8):
            c = st.cells(p.obj).get(p.off + i)
            if c is None and any(a <= p.off + i and p.off + i + 8 <= b for a, b in z):
                out.append(R.ZERO)
                continue
            out.append(None if c is None or not isinstance(c[1], (R.Node, float, int)) else R.lift(c[1]))
        return out

    def string(self, st, p):
        return st.ghost["strings"].get((p.obj.id, p.off))

    def name(self, st, tag="name"):
        o = self.obj(st, tag, 32)
        st.ghost["strings"] = {**st.ghost["strings"], (o.id, 0): tag}
        return Ptr(o, 0)

    # ------------------------------------------------------------ ghosts
    def before(self, ex, st, a, I):
        """comparisons of iterators of maps outside loops; contracts"""
        fn = ex.cur_fn
        d = ex.dname(fn)
        for pat, h in self.contracts.items():
            if re.search(pat, d):
                r = h(ex, st, a, I)
                if r is not NotImplemented:
                    return r
        if "std::__detail::operator" in d and "_Node_" in d:
            v = []
            for p in a[:2]:
                c = st.cells(p.obj).get(p.off)
                v.append(c[1] if c else UNDEF)
            if any(isinstance(getattr(getattr(x, "obj", None), "info", None), str) or x == NULL for x in v):
                # the result of find, against the end
                def there(x):
                    return not (x == NULL or getattr(getattr(x, "obj", None), "info", None) is None or isinstance(x.obj.info, fold.Iter))
                eq = not (there(v[0]) != there(v[1]))
                return int(eq if "operator==" in d else not eq)
            # in a range loop
            return self.loops.compare("operator!=" in d)(ex, st, a, I)
        return NotImplemented

    def dispatch(self, ex, st, a, I):
        pr = parse(ex.dname(ex.cur_fn))
        if pr is None:
            return NotImplemented
        cls, f, args = pr
        cb = base(cls)
        if cb == "std::unordered_map":
            return self.map(ex, st, a, I, f, args)
        if cb == "std::unordered_set":
            return self.set(ex, st, a, I, f, args)
        if cb.startswith("std::__detail::_Node_") and "iterator" in cb and f == cb.split("::")[-1]:
            if len(a) > 1:          # conversion of iterators
                c = st.cells(a[1].obj).get(a[1].off)
                ex.store_obj(st, a[0].obj, a[0].off, 8, c[1] if c else UNDEF)
            return None
        if cb in ("std::basic_string", "std::__cxx11::basic_string"):
            s = dict(st.ghost["strings"])
            me = (a[0].obj.id, a[0].off)
            if f == "basic_string" and len(a) == 2 and "basic_string" in args:
                s[me] = self.string(st, a[1])
            elif f == "operator=" and len(a) == 2 and "basic_string" in args:
                s[me] = self.string(st, a[1])
            elif f == "~basic_string":
                s.pop(me, None)
            elif f == "basic_string":
                s[me] = None
            else:
                raise Unsupported(f"std::string::{f}")
            st.ghost["strings"] = s
            return a[0] if I.ty.kind == "ptr" else None
        if cb == "mito::utilities::SharedPointer" and f == "SharedPointer" and len(a) == 2 and "SharedPointer" in args:
            self.put(st, a[0].obj, a[0].off, self.key(st, a[1]))
            return None
        if cb == "mito::utilities::SharedPointer" and f == "~SharedPointer":
            return None
        if cb.startswith("std::pair") and "_Node_" in cls.split(",")[0] and f in ("pair", "~pair"):
            return None
        return NotImplemented

    def given(self, st, k):
        """is the key in the map: by the case"""
        if k not in self.keys:
            raise Unsupported("a key that was not given")
        for r in st.ghost["rec"]:
            if r[0] == "emplace" and r[2] == k:
                return True
        return self.present

    keys = ()

    def map(self, ex, st, a, I, f, args):
        m = (a[0].obj.id, a[0].off)
        if f == "unordered_map" and len(a) == 2 and "&&" in args:
            self.record(st, "move", m, (a[1].obj.id, a[1].off))
            return None
        if f == "unordered_map" and len(a) == 1:
            self.record(st, "map", m)
            return None
        if f == "~unordered_map":
            self.record(st, "~map", m)
            return None
        if f in ("emplace", "try_emplace") and len(a) >= 2 or f == "insert_or_assign":
            k = self.key(st, a[1])
            n = self.value_size
            v = self.content(st, a[2], n) if len(a) > 2 else [R.ZERO] * (n // 8)
            there = self.given(st, k)
            if not there or f == "insert_or_assign":
                self.record(st, "emplace", m, k, tuple(v))
            return [UNDEF, int(not there)] if I.ty.kind == "struct" else UNDEF
        if f in ("find", "contains", "count", "at"):
            there = self.given(st, self.key(st, a[1]))
            if f in ("contains", "count"):
                return int(there)
            if f == "at":
                self.record(st, "at", m, self.key(st, a[1]))
                if not there:
                    st.status, st.retval = "throw", "the map has no such key"
                    raise execu.Infeasible()
                return self.value
            if not there:
                return NULL
            o = ex.new_obj(st, "found", 8, "ghost")
            o.info = "found"
            return Ptr(o, 0)
        if f == "operator[]":
            k = self.key(st, a[1])
            if not self.given(st, k):
                self.record(st, "emplace", m, k, tuple([R.ZERO] * (self.value_size // 8)))
            else:
                self.record(st, "at", m, k)
            return self.value
        if f in ("end", "cend"):
            return NULL
        if f == "size":
            self.record(st, "size", m)
            return z3.Int("size")
        if f == "reserve":
            return None
        raise Unsupported(f"std::unordered_map::{f}")

    def set(self, ex, st, a, I, f, args):
        m = (a[0].obj.id, a[0].off)
        if f in ("insert", "emplace") and len(a) == 2 and "initializer_list" not in args:
            self.record(st, "insert", m, self.key(st, a[1]))
            return [UNDEF, z3.Int("new")] if I.ty.kind == "struct" else UNDEF
        if f == "unordered_set" and len(a) == 1:
            self.record(st, "set", m)
            return None
        if f == "~unordered_set":
            self.record(st, "~set", m)
            return None
        if f == "reserve":
            return None
        raise Unsupported(f"std::unordered_set::{f}")

    def changes(self, p):
        return [r for r in p.ghost["rec"] if r[0] in ("emplace", "insert", "move", "map", "set", "~map", "nodes", "field")]


def moved(ch, m):
    """where the map built at m is in the end; None: destroyed"""
    for r in ch:
        if r[0] == "move" and r[2] == m:
            m = r[1]
        elif r == ("~map", m):
            return None
    return m


def value_of(J, L):
    J.value_size = L[3]


# -------------------------------------------------------------------- discrete fields
def field_arg(J, st, L):
    f = J.obj(st, "field", L[0])
    J.f, J.m = f, (f.id, L[1])
    value_of(J, L)
    st.ghost["strings"] = {**st.ghost["strings"], (f.id, L[2]): "name of the field"}
    return Ptr(f, 0)


def job_insert(ctx, T, case, default):
    D, t = case
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>::insert({'key' if default else 'key, value'})")
    L = T.fields[case]

    def setup(st):
        a = [field_arg(J, st, L)]
        h, J.k = J.handle(st, "key")
        J.keys = [J.k]
        a.append(h)
        J.v = [R.ZERO] * (L[3] // 8)
        if not default:
            o = J.obj(st, "value", L[3])
            J.v = [R.var(f"v{i}") for i in range(L[3] // 8)]
            for i, x in enumerate(J.v):
                J.put(st, o, 8 * i, x)
            a.append(Ptr(o, 0))
        return a

    def post(p):
        yield "exactly the key is added, with the value", [r for r in J.changes(p)] == [("emplace", J.m, J.k, tuple(J.v))]
    J.run(f"{'default' if default else 'insert'}_{D}_{t}", setup, post)


def job_access(ctx, T, case, how, present):
    D, t = case
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>::operator(), {how}, of {'a key' if present else 'no key'} of the field")
    L = T.fields[case]
    J.present = present

    def setup(st):
        a = [field_arg(J, st, L)]
        h, J.k = J.handle(st, "key")
        J.keys = [J.k]
        o = J.obj(st, "value", L[3])
        J.value = Ptr(o, 0)
        for i in range(L[3] // 8):
            J.put(st, o, 8 * i, R.var(f"v{i}"))
        return a + [h]

    def post(p):
        if not present:
            yield "it throws", p.kind == "throw"
        else:
            yield "it is the value that the map has for the key", p.kind == "ret" and p.retval == J.value and [r for r in p.ghost["rec"]] == [("at", J.m, J.k)]
            yield "the value does not change", all(x is R.var(f"v{i}") for i, x in enumerate(J.content(p, J.value, L[3])))
        yield "the field does not change", not J.changes(p)
    J.run(f"{how}_{D}_{t}", setup, post, throws=True)


def job_size(ctx, T, case):
    D, t = case
    L = T.fields[case]
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>::size()")

    def setup(st):
        return [field_arg(J, st, L)]

    def post(p):
        yield "it is the number of entries", z3.is_expr(p.retval) and p.retval.eq(z3.Int("size")) and [r for r in p.ghost["rec"]] == [("size", J.m)]
    J.run(f"size_{D}_{t}", setup, post)
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>::name()")

    def post(p):
        yield "it is the name of the field", isinstance(p.retval, Ptr) and J.string(p, p.retval) == "name of the field" and not J.changes(p)
    J.run(f"name_{D}_{t}", setup, post)


def job_named(ctx, T, case):
    D, t = case
    L = T.fields[case]
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>(name)")

    def setup(st):
        f = field_arg(J, st, L)
        st.ghost["strings"] = {}
        return [f, J.name(st)]

    def post(p):
        yield "the field has no entries", J.changes(p) == [("map", J.m)]
        yield "the field has the name given", p.ghost["strings"].get((J.f.id, L[2])) == "name"
    J.run(f"named_{D}_{t}", setup, post)


def job_make(ctx, T, case):
    D, t = case
    L = T.fields[case]
    J = Job(ctx, T, f"DiscreteField<node in {D}D, {'scalar' if t == 's' else 'vector'}>(keys, name)")

    def setup(st):
        f = field_arg(J, st, L)
        st.ghost["strings"] = {}
        s = J.obj(st, "keys", 64)
        h, J.k = J.handle(st, "key")
        J.keys = [J.k]
        J.elements[(s.id, 0)] = h
        return [f, Ptr(s, 0), J.name(st)]

    def post(p):
        if p.kind == "iteration":
            yield "an arbitrary key is added, once, with the default value", [r for r in J.changes(p)] == [
                ("map", J.m), ("emplace", J.m, J.k, tuple([R.ZERO] * (L[3] // 8)))]
        else:
            yield "nothing is added but the keys", J.changes(p) == [("map", J.m)]
            yield "the field has the name given", p.ghost["strings"].get((J.f.id, L[2])) == "name"
    J.run(f"make_{D}_{t}", setup, post, loop="the keys are visited")


# -------------------------------------------------------------------- meshes
def mesh_arg(J, st, case):
    L = J.T.meshes[case]
    m = J.obj(st, "mesh", L[0])
    J.mesh = Ptr(m, 0)
    c = J.obj(st, "cell", L[3])
    J.nodes = []
    for i in range(case[0] + 1):
        n = J.obj(st, f"node{i}", 64)
        J.put(st, c, L[2] + 16 * i, Ptr(n, 0))
        J.put(st, c, L[2] + 16 * i + 8, NULL)
        J.nodes.append(Ptr(n, 0))
    J.elements[(m.id, L[1])] = Ptr(c, 0)
    return J.mesh


def job_nodes(ctx, T, case):
    N, D = case
    J = Job(ctx, T, f"get_nodes(mesh of {N}-simplices in {D}D)")

    def setup(st):
        m = mesh_arg(J, st, case)
        s = J.obj(st, "nodes", 64)
        J.s = (s.id, 0)
        return [m, Ptr(s, 0)]

    def post(p):
        ch = J.changes(p)
        if p.kind == "iteration":
            yield "the nodes of an arbitrary cell are inserted, all of them", all(any(r == ("insert", J.s, n) for r in ch) for n in J.nodes)
            yield "nothing else is inserted", all(r[0] == "insert" and r[1] == J.s and r[2] in J.nodes for r in ch)
        else:
            yield "nothing is inserted but the nodes of the cells", not ch
    J.run(f"nodes_{N}_{D}", setup, post, loop="the cells are visited")


def field_out(J, st, L):
    f = J.obj(st, "field", L[0])
    J.f, J.m = f, (f.id, L[1])
    value_of(J, L)
    return Ptr(f, 0)


def job_on_mesh(ctx, T, case):
    """by the contracts of get_nodes and of the constructor"""
    N, D = case
    L = T.fields[D, "s"]
    J = Job(ctx, T, f"mesh_field(mesh of {N}-simplices in {D}D, name)")

    def nodes(ex, st, a, I):
        if a[0] != J.mesh:
            raise Unsupported("nodes of another mesh")
        J.record(st, "nodes", (a[1].obj.id, a[1].off))
        return None

    def field(ex, st, a, I):
        if len(a) != 3:
            return NotImplemented
        J.record(st, "field", (a[0].obj.id, a[0].off + L[1]), (a[1].obj.id, a[1].off))
        st.ghost["strings"] = {**st.ghost["strings"], (a[0].obj.id, a[0].off + L[2]): J.string(st, a[2])}
        return None
    J.contracts = {r"mito::mesh::get_nodes<": nodes, r"^mito::discrete::DiscreteField<.*>::DiscreteField<": field}

    def setup(st):
        m = mesh_arg(J, st, case)
        return [m, field_out(J, st, L), J.name(st)]

    def post(p):
        ch = [r for r in p.ghost["rec"] if r[0] in ("set", "nodes", "field", "insert", "emplace", "move", "map", "~set", "~map", "at")]
        s = ch[0][1] if ch else None
        m = next((r[1] for r in ch if r[0] == "field"), None)
        yield "the nodes of the mesh, and nothing else, are collected, and the field is made of them", \
            [r for r in ch if r[0] not in ("move", "~map")] == [("set", s), ("nodes", s), ("field", m, s), ("~set", s)]
        yield "the field is returned", moved(ch, m) == J.m
        yield "the field has the name given", p.ghost["strings"].get((J.f.id, L[2])) == "name"
    J.run(f"on_mesh_{N}_{D}", setup, post)


def job_sampled(ctx, T, case, t):
    """by the contract of mesh_field(mesh, name), and that of CoordinateSystem::coordinates: the coordinates that a point has"""
    N, D = case
    L = T.fields[D, t]
    J = Job(ctx, T, f"mesh_field(mesh of {N}-simplices in {D}D, coordinates, {'scalar' if t == 's' else 'vector'} field, name)")

    def on_mesh(ex, st, a, I):
        if len(a) != 3:
            return NotImplemented
        if a[1] != J.mesh:
            raise Unsupported("field on another mesh")
        m = (a[0].obj.id, a[0].off + L[1])
        J.record(st, "field", m, J.string(st, a[2]))
        st.ghost["strings"] = {**st.ghost["strings"], (a[0].obj.id, a[0].off + L[2]): J.string(st, a[2])}
        J.elements[m] = Ptr(J.entry, 0)
        return None

    def coordinates(ex, st, a, I):
        if a[0] != J.cs or J.key(st, a[1]) != J.point:
            raise Unsupported("coordinates of another point")
        return J.at
    J.contracts = {r" mito::discrete::mesh_field<": on_mesh, r"mito::geometry::CoordinateSystem<.*>::coordinates\(": coordinates}

    def setup(st):
        m = mesh_arg(J, st, case)
        cs = J.obj(st, "coordinates", 64)
        J.cs = Ptr(cs, 0)
        f = field_out(J, st, L)
        # an arbitrary entry
        node = J.obj(st, "node", L[5])
        point = J.obj(st, "point", 64)
        J.point = Ptr(point, 0)
        J.put(st, node, L[4], J.point)
        e = J.obj(st, "entry", L[6])
        J.entry = e
        J.node = Ptr(node, 0)
        J.put(st, e, 0, J.node)
        J.put(st, e, 8, NULL)
        for i in range(L[3] // 8):
            J.put(st, e, L[7] + 8 * i, R.var(f"old{i}"))
        at = J.obj(st, "at", 8 * D)
        J.x = [R.var(f"x{i}") for i in range(D)]
        for i in range(D):
            J.put(st, at, 8 * i, J.x[i])
        J.at = Ptr(at, 0)
        J.keys, J.present, J.value = [J.node], True, Ptr(e, L[7])
        return [m, J.cs, f, J.name(st)]

    def post(p):
        ch = J.changes(p)
        made = ch[:1]
        m = made[0][1] if made and made[0][0] == "field" else None
        yield "one field is made, on the nodes of the mesh", m is not None and all(r[0] in ("move", "~map") for r in ch[1:])
        if p.kind == "iteration":
            got = J.content(p, Ptr(J.entry, L[7]), L[3])
            for i in range(L[3] // 8):
                want = opaque.opq(1, i, 0, *(J.x + [R.ZERO] * (3 - D)))
                yield f"the value of an arbitrary node is that of the field at its coordinates [{i}]", got[i] is want
            yield "the entries stay what they are", ch == made and p.cells(J.entry).get(0)[1] == J.node
        else:
            yield "the field on the nodes of the mesh is returned", moved(ch, m) == J.m
            yield "the field has the name given", p.ghost["strings"].get((J.f.id, L[2])) == "name"
    J.run(f"sampled_{N}_{D}_{t}", setup, post, loop="the entries are visited")


def job_cloud(ctx, T, D):
    L = T.clouds[D]
    J = Job(ctx, T, f"point_field(cloud in {D}D, name)")

    def setup(st):
        c = J.obj(st, "cloud", L[0])
        f = J.obj(st, "field", L[2])
        J.f, J.m, J.value_size = f, (f.id, L[3]), 8
        h, J.k = J.handle(st, "point", std=False)
        J.keys = [J.k]
        J.elements[(c.id, L[1])] = h
        return [Ptr(c, 0), Ptr(f, 0), J.name(st)]

    def post(p):
        ch = J.changes(p)
        m = ch[0][1] if ch else None
        if p.kind == "iteration":
            yield "an arbitrary point is added, once, with the default value", ch == [("map", m), ("emplace", m, J.k, (R.ZERO,))]
        else:
            yield "nothing is added but the points", ch[0] == ("map", m) and all(r[0] in ("move", "~map") for r in ch[1:])
            yield "the field is returned", moved(ch, m) == J.m
            yield "the field has the name given", p.ghost["strings"].get((J.f.id, L[4])) == "name"
    J.run(f"on_cloud_{D}", setup, post, loop="the points are visited")
