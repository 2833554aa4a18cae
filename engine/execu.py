"""Symbolic executor of LLVM IR: generates verification conditions for a function from its
contract.  Every path of the function is executed with symbolic inputs; calls to functions that
have a contract are replaced by the contract, other calls with a body are executed in place.

Values
  int     Python int (unsigned, modulo 2^bits) or z3 Int term (mathematical)
  i1      0/1 or z3 Bool
  double  reals.Node
  ptr     Ptr(obj, off) into a separate object; z3 Int term: an address in the flat heap;
          FuncPtr
"""
import z3
from . import reals as R
from . import ir


class Unsupported(Exception):
    """the code uses something outside the verifier's dialect: no obligations can be generated"""


class PathLimit(Unsupported):
    pass


class Infeasible(Exception):
    pass


class Obj:
    n = 0
    __slots__ = ("id", "name", "size", "ty", "kind", "addr", "info")

    def __init__(self, name, size, kind, ty=None):
        Obj.n += 1
        self.id, self.name, self.size, self.kind, self.ty = Obj.n, name, size, kind, ty
        self.addr = None
        self.info = None

    def __repr__(self):
        return f"{self.name}#{self.id}"


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and samev(self.off, o.off)

    def __hash__(self):
        return hash((id(self.obj), self.off if isinstance(self.off, int) else self.off.hash()))


NULL = Ptr(None, 0)


class FuncPtr:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return f"&{self.fn}"


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


def samev(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a is b


def is_sym(v):
    return z3.is_expr(v)


def sgn(v, bits):
    """signed reading of a concrete unsigned value"""
    return v - (1 << bits) if v >> (bits - 1) else v


class Frame:
    __slots__ = ("fn", "bb", "prev", "pc", "vals", "args", "ret_to", "allocas", "loops")

    def clone(self):
        f = Frame()
        f.fn, f.bb, f.prev, f.pc = self.fn, self.bb, self.prev, self.pc
        f.vals = dict(self.vals)
        f.args, f.ret_to = self.args, self.ret_to
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f


class Obligations(list):
    """the obligations met on a path: (name, formula). All those met on any path, whatever becomes of it, are kept with the
    path condition and the ghost state at that moment: what is assumed later (the postcondition of a contract, say) proves
    nothing about them"""

    def __init__(self, st, items=(), met=None):
        super().__init__(items)
        self.st, self.met = st, [] if met is None else met

    def append(self, x):
        super().append(x)
        self.met.append((x[0], x[1], list(self.st.pc), dict(self.st.ghost)))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, *a):
        raise TypeError("obligations are appended")


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}        # obj id -> {off: (size, value)}
        self.owned = set()
        self.pc = []         # z3 path condition
        self.rpc = []        # real path condition: (pred, Node, Node)
        self.ghost = {}
        self.heap = None     # flat heap: {key: z3 array}
        self.trace = []
        self.obls = Obligations(self)
        self.status = None
        self.retval = None
        self.steps = 0
        self.model = None

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.rpc = list(self.rpc)
        s.ghost = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.ghost.items()}
        s.heap = dict(self.heap) if self.heap is not None else None
        s.trace = list(self.trace)
        s.obls = Obligations(s, self.obls, self.obls.met)
        s.status, s.retval, s.steps = self.status, self.retval, self.steps
        return s

    def cells(self, obj, write=False):
        c = self.mem.get(obj.id)
        if c is None:
            c = {}
            self.mem[obj.id] = c
            self.owned.add(obj.id)
            return c
        if write and obj.id not in self.owned:
            c = dict(c)
            self.mem[obj.id] = c
            self.owned.add(obj.id)
        return c


class Ex:
    def __init__(self, module, max_steps=2_000_000, max_paths=4000):
        self.mod = module
        self.max_steps, self.max_paths = max_steps, max_paths
        self.handlers = {}          # mangled name -> handler
        self.patterns = []          # (predicate(demangled), handler)
        self.demangled = {}
        self.gobjs = {}
        self.hcache = {}
        self.axioms = []            # z3 facts always true
        self.feas_timeout = 2000
        self.loop_specs = {}
        self.executed = set()       # functions whose body was executed
        self.contracted = set()     # functions replaced by contracts / models
        self.solver_calls = 0
        self.solver_time = 0.0
        self.check_real_feasible = None
        self.indirect = None
        self.havoc_load = None      # lazily initialises missing cells
        self.icount = 0
        self.bits = {}              # z3 term ids known to be non-negative
        self.cut_recursion = {}

    # ------------------------------------------------------------ names
    def demangle_all(self):
        import subprocess
        names = [n for n in self.mod.funcs]
        p = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")):
            self.demangled[n] = d

    def dname(self, fn):
        if not self.demangled:
            self.demangle_all()
        return self.demangled.get(fn.name, fn.name)

    def handler(self, fn):
        h = self.hcache.get(fn.name, 0)
        if h == 0:
            h = self.handlers.get(fn.name)
            if h is None:
                d = self.dname(fn)
                for pred, hh in self.patterns:
                    if pred(d, fn):
                        h = hh
                        break
            self.hcache[fn.name] = h
        return h

    # ------------------------------------------------------------ solver
    def feasible(self, st, extra=()):
        import time
        if not st.pc and not extra:
            return True
        s = z3.Solver()
        s.set("timeout", self.feas_timeout)
        for a in self.axioms:
            s.add(a)
        for c in st.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        r = s.check()
        self.solver_calls += 1
        self.solver_time += time.time() - t
        return r != z3.unsat

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, size, kind, ty=None):
        o = Obj(name, size, kind, ty)
        st.mem[o.id] = {}
        st.owned.add(o.id)
        return o

    def addr_of(self, obj):
        if obj.addr is None:
            obj.addr = z3.Int(f"addr_{obj.name}_{obj.id}")
            self.axioms.append(obj.addr > 0)
        return obj.addr

    def to_int(self, p):
        """address of a pointer value as an Int term"""
        if isinstance(p, Ptr):
            if p.obj is None:
                return p.off if not isinstance(p.off, int) else p.off
            a = self.addr_of(p.obj)
            if isinstance(p.off, int) and p.off == 0:
                return a
            return a + p.off
        if isinstance(p, FuncPtr):
            return z3.Int("fn_" + p.fn.name)
        return p

    def from_int(self, st, v):
        """pointer of an integer value"""
        if isinstance(v, int):
            return NULL if v == 0 else Ptr(None, v)
        if isinstance(v, (Ptr, FuncPtr)):
            return v
        m = getattr(self, "objaddrs", None)
        # obj.addr or obj.addr + k
        base, k = v, 0
        if v.num_args() == 2 and v.decl().kind() == z3.Z3_OP_ADD:
            a, b = v.arg(0), v.arg(1)
            if z3.is_int_value(b):
                base, k = a, b.as_long()
            elif z3.is_int_value(a):
                base, k = b, a.as_long()
        if base.num_args() == 0:
            nm = base.decl().name()
            if nm.startswith("addr_"):
                oid = int(nm.rsplit("_", 1)[1])
                o = self.objbyid.get(oid) if hasattr(self, "objbyid") else None
                if o is not None:
                    return Ptr(o, k)
        return v

    def load(self, st, p, ty):
        k = ty.kind
        if k in ("struct", "array", "vector"):
            return self.load_agg(st, p, ty)
        size = ty.size
        if isinstance(p, Ptr):
            if p.obj is None:
                raise Unsupported("load through a null pointer")
            return self.load_obj(st, p, ty, size)
        if z3.is_expr(p):
            return self.flat_load(st, p, ty, size)
        raise Unsupported(f"load through {p}")

    def load_agg(self, st, p, ty):
        if ty.kind == "struct":
            return [self.load(st, self.padd(p, o), e) for o, e in zip(ty.offs, ty.elems)]
        return [self.load(st, self.padd(p, i * ty.elem.size), ty.elem) for i in range(ty.n)]

    def padd(self, p, k):
        if isinstance(k, int) and k == 0:
            return p
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(k, int):
                return Ptr(p.obj, p.off + k)
            r = z3.simplify((z3.IntVal(p.off) if isinstance(p.off, int) else p.off) + k)
            if z3.is_int_value(r):
                r = r.as_long()
            return Ptr(p.obj, r)
        if isinstance(p, FuncPtr):
            raise Unsupported("arithmetic on a function pointer")
        r = z3.simplify(p + k) if isinstance(k, int) else p + k
        return r

    def load_obj(self, st, p, ty, size):
        off = p.off
        if not isinstance(off, int):
            off = self.concretize(st, off, f"offset in {p.obj}")
        if p.obj.kind == "global":
            self.init_global(st, p.obj)
        cells = st.cells(p.obj)
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], ty)
        if c is None:
            # zero fill ranges
            z = cells.get(("zero",))
            if z is not None and not any(isinstance(o, int) and o < off + size and o + cc[0] > off for o, cc in cells.items() if isinstance(o, int)):
                for (a, b) in z:
                    if a <= off and off + size <= b:
                        return self.zero_of(ty)
            if c is None and not any(isinstance(o, int) and o < off + size and o + cc[0] > off for o, cc in cells.items()):
                if self.havoc_load is not None:
                    v = self.havoc_load(self, st, p.obj, off, ty)
                    if v is not None:
                        st.cells(p.obj, True)[off] = (size, v)
                        return v
                return UNDEF
        # composite read out of smaller / larger concrete cells
        v = self.piecewise(st, p.obj, off, size, ty)
        if v is not None:
            return self.coerce(st, v, ty)
        raise Unsupported(f"load of {size} bytes at {p} from cells {[(o, s[0]) for o, s in cells.items() if isinstance(o, int)][:6]}")

    def piecewise(self, st, obj, off, size, ty):
        cells = st.cells(obj)
        acc = 0
        zr = cells.get(("zero",)) or ()
        allundef = True
        for b in range(size):
            found = None
            for o, c in cells.items():
                if isinstance(o, int) and o <= off + b < o + c[0]:
                    found = (o, c)
                    break
            if found is None:
                if any(a <= off + b < e for a, e in zr):
                    byte = 0
                    allundef = False
                else:
                    byte = None
            else:
                o, c = found
                if c[1] is UNDEF:
                    byte = None
                else:
                    v = c[1]
                    if isinstance(v, R.Node) and R.isc(v):
                        import struct
                        v = struct.unpack("<Q", struct.pack("<d", float(v.args[0])))[0]
                    if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
                        v = v.off
                    if not isinstance(v, int):
                        return None
                    byte = (v >> (8 * (off + b - o))) & 255
                    allundef = False
            if byte is None:
                byte = 0   # undefined padding byte read as part of a wider copy
            acc |= byte << (8 * b)
        if allundef:
            return UNDEF
        if ty.kind == "double":
            import struct
            return R.const(struct.unpack("<d", struct.pack("<Q", acc))[0])
        return acc

    def zero_of(self, ty):
        if ty.kind in ("double", "float"):
            return R.ZERO
        if ty.kind == "ptr":
            return NULL
        if ty.kind == "int":
            return 0
        raise Unsupported("zero of " + ty.kind)

    def coerce(self, st, v, ty):
        if v is UNDEF:
            return v
        if ty.kind == "ptr":
            if isinstance(v, int):
                return self.from_int(st, v)
            return v
        if ty.kind == "int" and isinstance(v, Ptr) and v.obj is None:
            return v.off
        if ty.kind == "int" and ty.bits == 64 and isinstance(v, R.Node) and R.isc(v):
            if v is R.ZERO:
                return 0
        if ty.kind == "double" and isinstance(v, int):
            import struct
            return R.const(struct.unpack("<d", struct.pack("<Q", v))[0])
        if ty.kind == "int" and z3.is_bool(v) and ty.bits > 1:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def store(self, st, p, v, ty):
        if ty.kind in ("struct", "array", "vector"):
            if v is UNDEF:
                return
            if ty.kind == "struct":
                for o, e, x in zip(ty.offs, ty.elems, v):
                    self.store(st, self.padd(p, o), x, e)
            else:
                for i, x in enumerate(v):
                    self.store(st, self.padd(p, i * ty.elem.size), x, ty.elem)
            return
        if isinstance(p, Ptr):
            if p.obj is None:
                raise Unsupported("store through a null pointer")
            off = p.off
            if not isinstance(off, int):
                off = self.concretize(st, off, f"offset in {p.obj}")
            self.store_obj(st, p.obj, off, ty.size, v)
            return
        if z3.is_expr(p):
            return self.flat_store(st, p, v, ty)
        raise Unsupported(f"store through {p}")

    def store_obj(self, st, obj, off, size, v):
        if obj.kind == "global":
            self.init_global(st, obj)
        if obj.size is not None and isinstance(obj.size, int) and (off < 0 or off + size > obj.size):
            self.fault(st, f"store of {size} bytes at offset {off} of {obj} (size {obj.size})")
        cells = st.cells(obj, True)
        c = cells.get(off)
        if c is None or c[0] != size:
            for o in [o for o, cc in cells.items() if isinstance(o, int) and o < off + size and o + cc[0] > off]:
                self.clip(cells, o, off, off + size)
        cells[off] = (size, v)

    def clip(self, cells, o, a, b):
        """a cell is partially overwritten: keep concrete remains bytewise"""
        s, v = cells.pop(o)
        if isinstance(v, R.Node) and R.isc(v):
            import struct
            v = struct.unpack("<Q", struct.pack("<d", float(v.args[0])))[0]
        if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
            v = v.off
        for k in range(s):
            if not (a <= o + k < b):
                cells[o + k] = (1, (v >> (8 * k)) & 255 if isinstance(v, int) else UNDEF)

    def fault(self, st, what):
        st.trace.append("fault: " + what)
        st.status = "fault"
        st.retval = what
        raise Infeasible()

    def concretize(self, st, term, what):
        """fork on the feasible values of an integer term"""
        if isinstance(term, int):
            return term
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        s = z3.Solver()
        s.set("timeout", 5000)
        for a in self.axioms + st.pc:
            s.add(a)
        vals = []
        while True:
            if s.check() != z3.sat:
                break
            v = s.model().eval(term, model_completion=True).as_long()
            vals.append(v)
            s.add(term != v)
            if len(vals) > 64:
                raise Unsupported(f"symbolic {what}: {term}")
        if not vals:
            raise Infeasible()
        for v in vals[1:]:
            f = st.fork()
            f.pc.append(term == v)
            self.pending_retry.append(f)
        st.pc.append(term == vals[0])
        return vals[0]

    # flat heap --------------------------------------------------------------
    def heapkey(self, ty, size):
        if ty.kind == "double":
            return "d"
        return size

    def heap_init(self, st, tag="H"):
        st.heap = {8: z3.Array(f"{tag}8", z3.IntSort(), z3.IntSort()),
                   4: z3.Array(f"{tag}4", z3.IntSort(), z3.IntSort()),
                   1: z3.Array(f"{tag}1", z3.IntSort(), z3.IntSort())}

    on_flat = None

    def flat_load(self, st, a, ty, size):
        if st.heap is None:
            raise Unsupported(f"load through a symbolic address {a}")
        k = self.heapkey(ty, size)
        if k not in st.heap:
            raise Unsupported(f"flat load of {ty}")
        if self.on_flat is not None:
            self.on_flat(st, a, size, False)
        v = z3.simplify(z3.Select(st.heap[k], a))
        if ty.kind == "ptr":
            return self.from_int(st, v)
        if z3.is_int_value(v):
            return v.as_long() % (1 << ty.bits)
        return v

    def flat_store(self, st, a, v, ty):
        if st.heap is None:
            raise Unsupported(f"store through a symbolic address {a}")
        k = self.heapkey(ty, ty.size)
        if k not in st.heap:
            raise Unsupported(f"flat store of {ty}")
        if self.on_flat is not None:
            self.on_flat(st, a, ty.size, True)
        if isinstance(v, (Ptr, FuncPtr)):
            v = self.to_int(v)
        if v is UNDEF:
            v = z3.FreshConst(z3.IntSort(), "undef")
        if isinstance(v, int):
            v = sgn(v, ty.bits) if ty.kind == "int" and ty.bits > 1 else v
            v = z3.IntVal(v)
        if z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        st.heap[k] = z3.Store(st.heap[k], a, v)

    # globals ----------------------------------------------------------------
    def gobj(self, name):
        o = self.gobjs.get(name)
        if o is None:
            ty, init, const = self.mod.gvar(name)
            o = Obj("g:" + name, ty.size, "global", ty)
            o.info = (ty, init, const)
            self.gobjs[name] = o
        return o

    def init_global(self, st, o):
        if o.id in st.mem:
            return
        st.mem[o.id] = {}
        st.owned.add(o.id)
        ty, init, const = o.info
        if o.name == "g:__libc_single_threaded":
            st.mem[o.id][0] = (1, 1)    # assumption: one thread
            return
        if init is None:
            return
        kind, o.kind = o.kind, "ginit"
        self.store_const(st, o, 0, init, ty)
        o.kind = "global"

    def store_const(self, st, o, off, c, ty):
        k = c[0]
        if k == "zero" or (k == "null" and ty.kind != "ptr"):
            cells = st.cells(o, True)
            z = list(cells.get(("zero",)) or [])
            z.append((off, off + ty.size))
            cells[("zero",)] = z
            return
        if k == "agg":
            if ty.kind == "struct":
                for x, oo, e in zip(c[1], ty.offs, ty.elems):
                    self.store_const(st, o, off + oo, x, e)
            else:
                for i, x in enumerate(c[1]):
                    self.store_const(st, o, off + i * ty.elem.size, x, ty.elem)
            return
        if k == "undef":
            return
        if ty.size == 0:
            return
        v = self.cval(st, c)
        st.cells(o, True)[off] = (ty.size, v)

    # ------------------------------------------------------------ operands
    def cval(self, st, c):
        k = c[0]
        if k == "int":
            return c[1]
        if k == "fp":
            x = c[1]
            if x != x or x in (float("inf"), float("-inf")):
                return R.var("const:" + repr(x))
            return R.const(x)
        if k == "null":
            return NULL
        if k == "undef":
            if c[1].kind in ("struct", "array", "vector"):
                n = len(c[1].elems) if c[1].kind == "struct" else c[1].n
                el = c[1].elems if c[1].kind == "struct" else [c[1].elem] * n
                return [self.cval(st, ("undef", e)) for e in el]
            return UNDEF
        if k == "zero":
            ty = c[1]
            if ty.kind == "struct":
                return [self.cval(st, ("zero", e)) for e in ty.elems]
            if ty.kind in ("array", "vector"):
                return [self.cval(st, ("zero", ty.elem)) for _ in range(ty.n)]
            return self.zero_of(ty)
        if k == "agg":
            return [self.cval(st, x) for x in c[1]]
        if k == "func":
            return FuncPtr(c[1])
        if k == "gvar":
            return Ptr(self.gobj(c[1]), 0)
        if k == "cexpr":
            op, ops, ty, aux = c[1:]
            if op == "getelementptr":
                v = [self.cval(st, x) for x in ops]
                return self.gep(st, v[0], v[1:], aux)
            if op in ("bitcast", "addrspacecast"):
                return self.cval(st, ops[0])
            if op == "ptrtoint":
                return self.cval(st, ops[0])
            if op == "inttoptr":
                return self.from_int(st, self.cval(st, ops[0]))
            a = [self.cval(st, x) for x in ops]
            if op == "sub" and all(isinstance(x, Ptr) for x in a) and a[0].obj is a[1].obj:
                return a[0].off - a[1].off
            if op in ("add", "sub") and all(isinstance(x, int) for x in a):
                return (a[0] + a[1] if op == "add" else a[0] - a[1]) & ((1 << ty.bits) - 1)
            if op == "trunc":
                return a[0]
        raise Unsupported(f"constant {c[:2]}")

    def val(self, st, fr, o):
        k = o[0]
        if k == "ins":
            return fr.vals[o[1]]
        if k == "arg":
            return fr.args[o[1]]
        if k == "int":
            return o[1]
        return self.cval(st, o)

    def gep(self, st, base, idx, ty):
        off = 0
        sym = None
        i = idx[0]
        terms = [(i, ty.size)]
        t = ty
        for j in idx[1:]:
            if t.kind == "struct":
                off += t.offs[j]
                t = t.elems[j]
            else:
                t = t.elem
                terms.append((j, t.size))
        for i, s in terms:
            if isinstance(i, int):
                off += sgn(i, 64) * s if i >> 63 else i * s
            elif i is UNDEF:
                raise Unsupported("undefined index")
            elif s:
                sym = i * s if sym is None else sym + i * s
        if sym is not None:
            off = z3.simplify(sym + off)
        return self.padd(base, off)

    # ------------------------------------------------------------ run
    def call_entry(self, st, fn, args):
        fr = Frame()
        fr.fn, fr.bb, fr.prev, fr.pc = fn, fn.blocks[0], None, 0
        fr.vals, fr.args, fr.ret_to, fr.allocas, fr.loops = {}, args, None, [], {}
        st.frames.append(fr)
        self.executed.add(fn.name)

    def run(self, fn, args, st=None):
        """all final states of fn(args)"""
        st = st or State()
        self.objbyid = getattr(self, "objbyid", {})
        base = len(st.frames)
        self.call_entry(st, fn, args)
        work, done = [st], []
        self.pending = work
        total = 0
        while work:
            s = work.pop()
            self.pending_retry = []
            try:
                self.run_path(s, work, base)
            except Infeasible:
                if s.status is None:
                    continue
            done.append(s)
            if len(done) > self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths in {fn.name}")
        return done

    def assign_call(self, st, I, v):
        """complete the call I on a forked state, with result v"""
        self.finish_call(st, st.frames[-1], I, v)

    def subrun(self, st, base=0):
        """final states of the continuation of st (which stops at the end of the whole run)"""
        saved = self.pending, self.pending_retry
        work, done = [st], []
        self.pending = work
        try:
            while work:
                s = work.pop()
                self.pending_retry = []
                try:
                    self.run_path(s, work, base)
                except Infeasible:
                    if s.status is None:
                        continue
                done.append(s)
                if len(done) > self.max_paths:
                    raise PathLimit("more than the permitted number of paths in a loop body")
        finally:
            self.pending, self.pending_retry = saved
        return done

    def run_path(self, st, work, base):
        while True:
            fr = st.frames[-1]
            ins = fr.bb.ins[fr.pc]
            st.steps += 1
            self.icount += 1
            if st.steps > self.max_steps:
                raise PathLimit(f"more than {self.max_steps} steps in {st.frames[0].fn.name}")
            npend = len(self.pending_retry)
            self.step(st, fr, ins, work)
            if len(self.pending_retry) > npend:
                # forks created while evaluating this instruction restart it
                for f in self.pending_retry[npend:]:
                    work.append(f)
                del self.pending_retry[npend:]
            if st.status is not None:
                return
            if len(st.frames) == base:
                st.status = "ret"
                return

    def goto(self, st, fr, bb, work=None):
        spec = self.loop_specs.get((fr.fn.name, bb.idx)) if self.loop_specs else None
        prev = fr.bb
        vals = []
        for I in bb.ins:
            if I.op != "phi":
                break
            for o, b in I.ops:
                if b is prev:
                    vals.append((I.idx, self.val(st, fr, o)))
                    break
            else:
                raise Unsupported("phi without a matching predecessor")
        for i, v in vals:
            fr.vals[i] = v
        fr.prev, fr.bb, fr.pc = prev, bb, len(vals)
        if spec is not None:
            spec(self, st, fr, bb, prev)

    def decide(self, st, cond, work):
        """branch on a condition value: returns Python bool, forking if both are possible"""
        if isinstance(cond, int):
            return bool(cond & 1)
        if cond is UNDEF:
            raise Unsupported("branch on an undefined value")
        if isinstance(cond, tuple):          # real comparison
            return self.decide_real(st, cond, work)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # the fork re-executes the same instruction with the negated condition assumed
        ft = self.feasible(st, [c])
        ff = self.feasible(st, [z3.Not(c)])
        if ft and ff:
            f = st.fork()
            f.pc.append(z3.Not(c))
            self.pending_retry.append(f)
            st.pc.append(c)
            return True
        if ft:
            st.pc.append(c)
            return True
        if ff:
            st.pc.append(z3.Not(c))
            return False
        raise Infeasible()

    NEGP = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}

    def decide_real(self, st, cond, work):
        _, p, a, b = cond
        key = (p, a.id, b.id)
        for q, x, y in st.rpc:
            if x is a and y is b:
                if q == p:
                    return True
                if q == self.NEGP[p]:
                    return False
        if self.check_real_feasible:
            r = self.check_real_feasible(self, st, p, a, b)
            if r is not None:
                return r
        f = st.fork()
        f.rpc.append((self.NEGP[p], a, b))
        self.pending_retry.append(f)
        st.rpc.append((p, a, b))
        return True

    def step(self, st, fr, I, work):
        op = I.op
        f = getattr(self, "i_" + op, None)
        if f is None:
            raise Unsupported("instruction " + op)
        f(st, fr, I, work)

    # --- arithmetic on reals
    def _fbin(self, st, fr, I, g):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        if I.ty.kind == "vector":
            fr.vals[I.idx] = [g(x, y) for x, y in zip(a, b)]
        else:
            if a is UNDEF or b is UNDEF:
                fr.vals[I.idx] = UNDEF
            else:
                fr.vals[I.idx] = g(a, b)
        fr.pc += 1

    def i_fadd(self, st, fr, I, w):
        self._fbin(st, fr, I, R.add)

    def i_fsub(self, st, fr, I, w):
        self._fbin(st, fr, I, R.sub)

    def i_fmul(self, st, fr, I, w):
        self._fbin(st, fr, I, R.mul)

    def i_fdiv(self, st, fr, I, w):
        self._fbin(st, fr, I, R.div)

    def i_fneg(self, st, fr, I, w):
        a = self.val(st, fr, I.ops[0])
        fr.vals[I.idx] = [R.neg(x) for x in a] if isinstance(a, list) else (UNDEF if a is UNDEF else R.neg(a))
        fr.pc += 1

    # --- integers
    def _ibin(self, st, fr, I, g):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        if I.ty.kind == "vector":
            fr.vals[I.idx] = [UNDEF if x is UNDEF or y is UNDEF else g(st, x, y, I.ty.elem.bits) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            fr.vals[I.idx] = UNDEF
        else:
            fr.vals[I.idx] = g(st, a, b, I.ty.bits)
        fr.pc += 1

    def ival(self, v, bits):
        """integer term (mathematical, signed reading of constants)"""
        if isinstance(v, int):
            return z3.IntVal(sgn(v, bits) if bits > 1 else v)
        if isinstance(v, (Ptr, FuncPtr)):
            v = self.to_int(v)
            return z3.IntVal(v) if isinstance(v, int) else v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def norm(self, v, bits):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long() & ((1 << bits) - 1)
        return v

    def i_add(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return (a + b) & ((1 << n) - 1)
            if isinstance(a, Ptr) and isinstance(b, int):
                return self.padd(a, sgn(b, n))
            return self.norm(self.ival(a, n) + self.ival(b, n), n)
        self._ibin(st, fr, I, g)

    def i_sub(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return (a - b) & ((1 << n) - 1)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    return (a.off - b.off) & ((1 << n) - 1)
                return self.norm(self.ival(a.off, n) - self.ival(b.off, n), n)
            return self.norm(self.ival(a, n) - self.ival(b, n), n)
        self._ibin(st, fr, I, g)

    def i_mul(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return (a * b) & ((1 << n) - 1)
            return self.norm(self.ival(a, n) * self.ival(b, n), n)
        self._ibin(st, fr, I, g)

    def i_sdiv(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                x, y = sgn(a, n), sgn(b, n)
                if y == 0:
                    self.fault(st, "division by zero")
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & ((1 << n) - 1)
            x, y = self.ival(a, n), self.ival(b, n)
            if isinstance(b, int) and sgn(b, n) > 0:
                # truncation
                return self.norm(z3.If(x >= 0, x / y, -((-x) / y)), n)
            return self.divmod_sym(st, x, y)[0]
        self._ibin(st, fr, I, g)

    def i_srem(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                x, y = sgn(a, n), sgn(b, n)
                if y == 0:
                    self.fault(st, "division by zero")
                r = abs(x) % abs(y)
                return (r if x >= 0 else -r) & ((1 << n) - 1)
            x, y = self.ival(a, n), self.ival(b, n)
            if isinstance(b, int) and sgn(b, n) > 0:
                return self.norm(z3.If(x >= 0, x % y, -((-x) % y)), n)
            return self.divmod_sym(st, x, y)[1]
        self._ibin(st, fr, I, g)

    def divmod_sym(self, st, x, y):
        """quotient and remainder by a symbolic positive divisor (x >= 0, y > 0 are obligations)"""
        x, y = z3.simplify(x), z3.simplify(y)
        key = ("divmod", x.get_id(), y.get_id())
        r = st.ghost.get(key)
        if r is None:
            st.obls.append(("operands of a division: nonnegative by positive", z3.And(x >= 0, y > 0)))
            q = z3.FreshConst(z3.IntSort(), "quot")
            m = z3.FreshConst(z3.IntSort(), "rem")
            st.pc += [x == q * y + m, m >= 0, m < y, q >= 0]
            for x2, k, i in getattr(self, "divisions", ()):
                if x.eq(x2):
                    lemma = z3.Implies(z3.And(i >= 0, i < y, x == k * y + i), z3.And(q == k, m == i))
                    st.obls.append(("lemma: the quotient and the remainder are unique", lemma))
                    st.pc.append(lemma)
            r = (q, m, x, y)
            st.ghost[key] = r
        return r

    def i_udiv(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.fault(st, "division by zero")
                return a // b
            if isinstance(b, int):
                return self.norm(self.ival(a, n) / b, n)
            return self.divmod_sym(st, self.ival(a, n), self.ival(b, n))[0]
        self._ibin(st, fr, I, g)

    def i_urem(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return a % b
            if isinstance(b, int):
                return self.norm(self.ival(a, n) % b, n)
            return self.divmod_sym(st, self.ival(a, n), self.ival(b, n))[1]
        self._ibin(st, fr, I, g)

    def i_shl(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return (a << b) & ((1 << n) - 1)
            if isinstance(b, int):
                return self.norm(self.ival(a, n) * (1 << b), n)
            raise Unsupported("shl")
        self._ibin(st, fr, I, g)

    def i_lshr(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return a >> b
            if isinstance(b, int):
                x = self.ival(a, n)
                if b == n - 1:      # sign bit
                    return self.norm(z3.If(x < 0, z3.IntVal(1), z3.IntVal(0)), n)
                return self.norm(x / (1 << b), n)
            raise Unsupported("lshr")
        self._ibin(st, fr, I, g)

    def i_ashr(self, st, fr, I, w):
        def g(st, a, b, n):
            if isinstance(a, int) and isinstance(b, int):
                return (sgn(a, n) >> b) & ((1 << n) - 1)
            if isinstance(b, int):
                return self.norm(self.ival(a, n) / (1 << b), n)
            raise Unsupported("ashr")
        self._ibin(st, fr, I, g)

    def asbool(self, v):
        if isinstance(v, int):
            return z3.BoolVal(bool(v & 1))
        if isinstance(v, tuple):
            raise Unsupported("logical operation on a real comparison")
        return v

    def _logic(self, st, fr, I, w, name):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        n = I.ty.bits if I.ty.kind == "int" else None
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if name == "and" else a | b if name == "or" else a ^ b
        elif n == 1:
            if isinstance(a, tuple) or isinstance(b, tuple):
                # decide the real comparisons first (forks)
                if isinstance(a, tuple):
                    a = int(self.decide(st, a, w))
                if isinstance(b, tuple):
                    b = int(self.decide(st, b, w))
            if isinstance(a, int) and isinstance(b, int):
                r = a & b if name == "and" else a | b if name == "or" else a ^ b
            else:
                a, b = self.asbool(a), self.asbool(b)
                r = z3.And(a, b) if name == "and" else z3.Or(a, b) if name == "or" else z3.Xor(a, b)
                r = z3.simplify(r)
                if z3.is_true(r):
                    r = 1
                elif z3.is_false(r):
                    r = 0
        elif name == "and" and isinstance(b, int) and b and (b & (b + 1)) == 0 and not isinstance(a, (int, tuple)):
            r = self.norm(self.ival(a, n) % (b + 1), n)
        elif name == "xor" and isinstance(b, int) and b == (1 << n) - 1:
            r = self.norm(-self.ival(a, n) - 1, n)
        elif name == "or" and isinstance(b, int) and b == 0:
            r = a
        elif name == "and" and isinstance(b, int) and b == 0:
            r = 0
        else:
            raise Unsupported(f"bitwise {name} of symbolic values")
        fr.vals[I.idx] = r
        fr.pc += 1

    def i_and(self, st, fr, I, w):
        self._logic(st, fr, I, w, "and")

    def i_or(self, st, fr, I, w):
        self._logic(st, fr, I, w, "or")

    def i_xor(self, st, fr, I, w):
        self._logic(st, fr, I, w, "xor")

    def i_icmp(self, st, fr, I, w):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        fr.vals[I.idx] = self.icmp(st, I.pred, a, b, I.aux)
        fr.pc += 1

    def icmp(self, st, p, a, b, ty):
        n = ty.bits or 64
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                a, b = a.off, b.off
                if isinstance(a, int) and isinstance(b, int):
                    if p[0] == "u":
                        p = "s" + p[1:]
                    return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p])
            elif p in ("eq", "ne"):
                return int(p == "ne")
            else:
                a, b = self.to_int(a), self.to_int(b)
        elif isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            if p in ("eq", "ne"):
                same = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.fn is b.fn
                return int(same == (p == "eq"))
        if isinstance(a, Ptr):
            a = self.to_int(a)
        if isinstance(b, Ptr):
            b = self.to_int(b)
        if isinstance(a, int) and isinstance(b, int):
            if p in ("eq", "ne"):
                return int((a == b) == (p == "eq"))
            if p[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            q = p[1:]
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q])
        if n == 1:
            a, b = self.asbool(a), self.asbool(b)
            r = a == b if p == "eq" else z3.Xor(a, b)
        else:
            a, b = self.ival(a, n), self.ival(b, n)
            q = p if p in ("eq", "ne") else p[1:]
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                 "gt": lambda: a > b, "ge": lambda: a >= b}[q]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    FP = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le",
          "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}

    def i_fcmp(self, st, fr, I, w):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        if I.pred in ("ord", "true"):
            r = 1
        elif I.pred in ("uno", "false"):
            r = 0
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            p = self.FP[I.pred]
            if R.isc(a) and R.isc(b):
                x, y = a.args[0], b.args[0]
                r = int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
            elif a is b:
                r = int(p in ("eq", "le", "ge"))
            else:
                r = ("r", p, a, b)
        fr.vals[I.idx] = r
        fr.pc += 1

    # --- conversions
    def i_zext(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        if isinstance(v, tuple):
            v = int(self.decide(st, v, w))
        if z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        elif z3.is_expr(v):
            if not self.known_nonneg(st, v):
                st.obls.append(("zero-extended value is nonnegative", v >= 0))
        fr.vals[I.idx] = v
        fr.pc += 1

    def known_nonneg(self, st, v):
        return False

    def i_sext(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        n = I.aux.bits
        if isinstance(v, int):
            v = sgn(v, n) & ((1 << I.ty.bits) - 1)
        elif isinstance(v, tuple):
            v = ((1 << I.ty.bits) - 1) if self.decide(st, v, w) else 0
        elif z3.is_bool(v):
            v = z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        fr.vals[I.idx] = v
        fr.pc += 1

    def i_trunc(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        n = I.ty.bits
        if isinstance(v, int):
            v &= (1 << n) - 1
        elif v is UNDEF:
            pass
        elif n == 1:
            v = z3.simplify(v != 0) if not z3.is_bool(v) else v    # booleans are stored as 0/1
        elif isinstance(v, (Ptr,)):
            raise Unsupported("truncated pointer")
        fr.vals[I.idx] = v
        fr.pc += 1

    def i_ptrtoint(self, st, fr, I, w):
        fr.vals[I.idx] = self.val(st, fr, I.ops[0])     # pointers and addresses interchange
        fr.pc += 1

    def i_inttoptr(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        fr.vals[I.idx] = self.from_int(st, v)
        fr.pc += 1

    def i_bitcast(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        if not isinstance(v, list):
            v = self.coerce(st, v, I.ty)
        fr.vals[I.idx] = v
        fr.pc += 1

    def i_freeze(self, st, fr, I, w):
        fr.vals[I.idx] = self.val(st, fr, I.ops[0])
        fr.pc += 1

    def i_sitofp(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        if isinstance(v, int):
            v = R.const(sgn(v, I.aux.bits) if I.op == "sitofp" else v)
        elif isinstance(v, list):
            v = [R.const(sgn(x, I.aux.elem.bits)) for x in v]
        elif isinstance(v, tuple):
            v = R.const(int(self.decide(st, v, w)))
        else:
            v = self.int_to_real(st, v)
        fr.vals[I.idx] = v
        fr.pc += 1

    i_uitofp = i_sitofp

    def int_to_real(self, st, v):
        vals = self.concretize(st, self.ival(v, 64), "integer converted to double")
        return R.const(vals)

    def i_fptosi(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        if isinstance(v, R.Node) and R.isc(v):
            fr.vals[I.idx] = int(v.args[0]) & ((1 << I.ty.bits) - 1)
            fr.pc += 1
            return
        raise Unsupported("fptosi of a symbolic value")

    def i_fpext(self, st, fr, I, w):
        fr.vals[I.idx] = self.val(st, fr, I.ops[0])
        fr.pc += 1

    i_fptrunc = i_fpext

    # --- memory instructions
    def i_alloca(self, st, fr, I, w):
        n = self.val(st, fr, I.ops[0]) if I.ops else 1
        if not isinstance(n, int):
            raise Unsupported("alloca of symbolic size")
        o = self.new_obj(st, f"{fr.fn.name[:24]}.{I.idx}", I.aux.size * n, "stack", I.aux)
        self.objbyid[o.id] = o
        fr.allocas.append(o)
        fr.vals[I.idx] = Ptr(o, 0)
        fr.pc += 1

    def i_load(self, st, fr, I, w):
        p = self.val(st, fr, I.ops[0])
        if isinstance(p, Ptr) and p.obj is None:
            self.fault(st, "load through a null pointer" if p.off == 0 else f"load through address {p.off}")
        fr.vals[I.idx] = self.load(st, p, I.ty)
        fr.pc += 1

    def i_store(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        p = self.val(st, fr, I.ops[1])
        if isinstance(p, Ptr) and p.obj is None:
            self.fault(st, "store through a null pointer" if p.off == 0 else f"store through address {p.off}")
        if isinstance(v, tuple):
            v = int(self.decide(st, v, w))
        self.store(st, p, v, I.aux)
        fr.pc += 1

    def i_getelementptr(self, st, fr, I, w):
        v = [self.val(st, fr, o) for o in I.ops]
        if isinstance(v[0], list):
            raise Unsupported("vector gep")
        fr.vals[I.idx] = self.gep(st, v[0], v[1:], I.aux)
        fr.pc += 1

    def i_extractvalue(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        for k in I.aux:
            v = v if v is UNDEF else v[k]
        fr.vals[I.idx] = v
        fr.pc += 1

    def i_insertvalue(self, st, fr, I, w):
        a = self.val(st, fr, I.ops[0])
        x = self.val(st, fr, I.ops[1])

        def ins(a, path):
            if not path:
                return x
            a = list(a)
            a[path[0]] = ins(a[path[0]], path[1:])
            return a
        fr.vals[I.idx] = ins(a, list(I.aux))
        fr.pc += 1

    def i_extractelement(self, st, fr, I, w):
        v, k = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        fr.vals[I.idx] = v[k]
        fr.pc += 1

    def i_insertelement(self, st, fr, I, w):
        v, x, k = [self.val(st, fr, o) for o in I.ops]
        v = list(v) if isinstance(v, list) else [UNDEF] * I.ty.n
        v[k] = x
        fr.vals[I.idx] = v
        fr.pc += 1

    def i_shufflevector(self, st, fr, I, w):
        a, b = [self.val(st, fr, o) for o in I.ops]
        a = a if isinstance(a, list) else [UNDEF] * len(b)
        b = b if isinstance(b, list) else [UNDEF] * len(a)
        ab = list(a) + list(b)
        fr.vals[I.idx] = [UNDEF if k < 0 or k >= len(ab) else ab[k] for k in I.aux]
        fr.pc += 1

    # --- control
    def i_br(self, st, fr, I, w):
        if len(I.succ) == 1:
            return self.goto(st, fr, I.succ[0])
        c = self.decide(st, self.val(st, fr, I.ops[0]), w)
        self.goto(st, fr, I.succ[0] if c else I.succ[1])

    def i_switch(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0])
        if not isinstance(v, int):
            n = I.aux.bits
            for k in range(2, len(I.ops), 2):
                c = self.val(st, fr, I.ops[k])
                if self.decide(st, self.icmp(st, "eq", v, c, I.aux), w):
                    return self.goto(st, fr, I.ops[k + 1][1])
            return self.goto(st, fr, I.ops[1][1])
        for k in range(2, len(I.ops), 2):
            if self.val(st, fr, I.ops[k]) == v:
                return self.goto(st, fr, I.ops[k + 1][1])
        self.goto(st, fr, I.ops[1][1])

    def i_select(self, st, fr, I, w):
        c = self.val(st, fr, I.ops[0])
        a, b = self.val(st, fr, I.ops[1]), self.val(st, fr, I.ops[2])
        if isinstance(c, list):
            r = [x if k & 1 else y for k, x, y in zip(c, a, b)]
        elif not isinstance(c, (int, tuple)) and I.ty.kind == "int" and z3.is_expr(c) and I.ty.bits > 1 and not any(isinstance(x, (tuple, Ptr)) or x is UNDEF for x in (a, b)):
            n = I.ty.bits
            r = self.norm(z3.If(c, self.ival(a, n), self.ival(b, n)), n)
        elif not isinstance(c, (int, tuple)) and I.ty.kind == "int" and I.ty.bits == 1 and z3.is_expr(c) and not any(isinstance(x, tuple) or x is UNDEF for x in (a, b)):
            r = z3.simplify(z3.If(c, self.asbool(a), self.asbool(b)))
            r = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        else:
            r = a if self.decide(st, c, w) else b
        fr.vals[I.idx] = r
        fr.pc += 1

    def i_unreachable(self, st, fr, I, w):
        st.status = "unreachable"
        if st.retval is None:
            st.retval = f"unreachable in {fr.fn.name}"

    def i_ret(self, st, fr, I, w):
        v = self.val(st, fr, I.ops[0]) if I.ops else None
        if isinstance(v, tuple):
            v = int(self.decide(st, v, w))
        for o in fr.allocas:
            st.mem.pop(o.id, None)
        st.frames.pop()
        st.retval = v
        if fr.ret_to is not None:
            caller, ins = st.frames[-1], fr.ret_to
            if ins.ty.kind != "void":
                caller.vals[ins.idx] = v
            if ins.op == "invoke":
                self.goto(st, caller, ins.succ[0])
            else:
                caller.pc += 1

    def finish_call(self, st, fr, I, v):
        if I.ty.kind != "void":
            fr.vals[I.idx] = v
        if I.op == "invoke":
            self.goto(st, fr, I.succ[0])
        else:
            fr.pc += 1

    def i_call(self, st, fr, I, w):
        t = I.aux
        if t[0] == "func":
            fn = t[1]
        else:
            v = self.val(st, fr, t) if t[0] != "opaque" else None
            if isinstance(v, FuncPtr):
                fn = v.fn
            elif self.indirect is not None and v is not None:
                args = [self.val(st, fr, o) for o in I.ops]
                r = self.indirect(self, st, v, args, I)
                if r is NotImplemented:
                    raise Unsupported(f"indirect call through {v}")
                if st.status is None:
                    self.finish_call(st, fr, I, r)
                return
            else:
                raise Unsupported(f"indirect call through {v}")
        self.call_fn(st, fr, I, fn, w)

    i_invoke = i_call

    def call_fn(self, st, fr, I, fn, w):
        nm = fn.name
        args = None
        if nm.startswith("llvm."):
            if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant", "llvm.stackrestore")):
                fr.pc += 1
                return
            args = [self.val(st, fr, o) for o in I.ops]
            r = self.intrinsic(st, nm, args, I, w)
            self.finish_call(st, fr, I, r)
            return
        h = self.handler(fn)
        if h is not None:
            args = [self.val(st, fr, o) for o in I.ops]
            args = [int(self.decide(st, a, w)) if isinstance(a, tuple) else a for a in args]
            self.contracted.add(nm)
            self.current_call = I
            self.cur_fn = fn
            r = h(self, st, args, I)
            if r is not NotImplemented:
                if st.status is None and r is not PUSHED:
                    self.finish_call(st, fr, I, r)
                return
        if not fn.decl:
            args = args if args is not None else [self.val(st, fr, o) for o in I.ops]
            args = [int(self.decide(st, a, w)) if isinstance(a, tuple) else a for a in args]
            if len(st.frames) > 400:
                raise PathLimit("call depth")
            # recursion guard: used by contracts with induction on recursive calls
            self.push(st, fn, args, I)
            return
        args = args if args is not None else [self.val(st, fr, o) for o in I.ops]
        args = [int(self.decide(st, a, w)) if isinstance(a, tuple) else a for a in args]
        r = self.external(st, nm, args, I)
        if st.status is None:
            self.finish_call(st, fr, I, r)

    def push(self, st, fn, args, I):
        f = Frame()
        f.fn, f.bb, f.prev, f.pc = fn, fn.blocks[0], None, 0
        f.vals, f.args, f.ret_to, f.allocas, f.loops = {}, args, I, [], {}
        st.frames.append(f)
        self.executed.add(fn.name)

    # --- intrinsics and externals
    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            n = self.concretize(st, self.ival(n, 64), "memcpy length")
        if n == 0:
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj is not None and s.obj is not None:
            if s.obj.kind == "global":
                self.init_global(st, s.obj)
            so = self.concretize(st, s.off, "memcpy source")
            do = self.concretize(st, d.off, "memcpy destination")
            src = st.cells(s.obj)
            items = []
            for o, c in src.items():
                if o == ("zero",):
                    continue
                if o >= so and o + c[0] <= so + n:
                    items.append((o, c))
                elif o < so + n and o + c[0] > so:
                    # a cell straddles the end of the copied range: split it if it is concrete
                    v = c[1]
                    if v is UNDEF:
                        continue
                    if isinstance(v, int):
                        for k in range(c[0]):
                            if so <= o + k < so + n:
                                items.append((o + k, (1, (v >> (8 * k)) & 255)))
                    else:
                        raise Unsupported("memcpy splits a cell")
            zs = []
            for a, b in src.get(("zero",)) or ():
                a, b = max(a, so), min(b, so + n)
                if a < b:
                    zs.append((a, b))
            dst = st.cells(d.obj, True)
            for o in [o for o, c in dst.items() if isinstance(o, int) and o < do + n and o + c[0] > do]:
                if o >= do and o + dst[o][0] <= do + n:
                    del dst[o]
                else:
                    self.clip(dst, o, do, do + n)
            if ("zero",) in dst:
                z2 = []
                for a, b in dst[("zero",)]:
                    if b <= do or a >= do + n:
                        z2.append((a, b))
                    else:
                        if a < do:
                            z2.append((a, do))
                        if b > do + n:
                            z2.append((do + n, b))
                dst[("zero",)] = z2
            for o, c in items:
                dst[o - so + do] = c
            if zs:
                dst[("zero",)] = list(dst.get(("zero",)) or ()) + [(a - so + do, b - so + do) for a, b in zs]
            return
        # one side flat: copy word by word
        h = getattr(self, "flat_memcpy", None)
        if h is None:
            raise Unsupported("memcpy between flat memory")
        h(self, st, d, s, n)

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(st, self.ival(n, 64), "memset length")
        if n == 0:
            return
        if not isinstance(d, Ptr) or d.obj is None:
            raise Unsupported("memset of flat memory")
        do = self.concretize(st, d.off, "memset destination")
        if d.obj.kind == "global":
            self.init_global(st, d.obj)
        dst = st.cells(d.obj, True)
        for o in [o for o, c in dst.items() if isinstance(o, int) and o < do + n and o + c[0] > do]:
            if o >= do and o + dst[o][0] <= do + n:
                del dst[o]
            else:
                self.clip(dst, o, do, do + n)
        if v == 0:
            dst[("zero",)] = list(dst.get(("zero",)) or ()) + [(do, do + n)]
        else:
            for k in range(n):
                dst[do + k] = (1, v)

    def intrinsic(self, st, nm, a, I, w):
        if nm.startswith(("llvm.memcpy", "llvm.memmove")):
            return self.memcpy(st, a[0], a[1], a[2])
        if nm.startswith("llvm.memset"):
            return self.memset(st, a[0], a[1], a[2])
        if nm.startswith("llvm.fabs"):
            return self.fabs(st, a[0])
        for f in ("sqrt", "sin", "cos", "exp", "log", "pow"):
            if nm == f"llvm.{f}.f64":
                return R.fn(f, *a)
        if nm.startswith("llvm.powi"):
            return R.fn("pow", a[0], R.const(sgn(a[1], 32)))
        if nm.startswith(("llvm.fmuladd", "llvm.fma")):
            return R.add(R.mul(a[0], a[1]), a[2])
        if nm.startswith("llvm.expect"):
            return a[0]
        if nm.startswith("llvm.is.constant"):
            return 0
        if nm.startswith("llvm.objectsize"):
            return (1 << 64) - 1
        if nm.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            n = I.ty.bits
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                if "s" == nm[5]:
                    x, y = sgn(x, n), sgn(y, n)
                return (max(x, y) if "max" in nm else min(x, y)) & ((1 << n) - 1)
            x, y = self.ival(x, n), self.ival(y, n)
            return z3.If((x >= y) if "max" in nm else (x <= y), x, y)
        if nm.startswith("llvm.abs"):
            n = I.ty.bits
            if isinstance(a[0], int):
                return abs(sgn(a[0], n)) & ((1 << n) - 1)
            return z3.If(a[0] >= 0, a[0], -a[0])
        if nm.startswith(("llvm.maxnum", "llvm.minnum")):
            c = self.decide(st, ("r", "ge", a[0], a[1]), w)
            return a[0] if c == ("max" in nm) else a[1]
        if nm.startswith("llvm.stacksave"):
            return NULL
        if nm.startswith("llvm.trap"):
            st.status = "trap"
            return None
        raise Unsupported(nm)

    def fabs(self, st, x):
        if x is UNDEF:
            return UNDEF
        return R.fn("fabs", x)

    def external(self, st, nm, a, I):
        if (nm in R.FN or nm in ("hypot", "hypotf")) and I.ty.kind == "double":
            return R.fn(nm, *a)
        if nm in ("_Znwm", "_Znam"):
            if not isinstance(a[0], int):
                raise Unsupported("allocation of symbolic size")
            o = self.new_obj(st, "heap", a[0], "heap")
            self.objbyid[o.id] = o
            return Ptr(o, 0)
        if nm in ("_ZnwmSt11align_val_t",):
            o = self.new_obj(st, "heap", a[0], "heap")
            self.objbyid[o.id] = o
            return Ptr(o, 0)
        if nm in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvmSt11align_val_t"):
            p = a[0]
            if isinstance(p, Ptr) and p.obj is None:
                return None
            if not isinstance(p, Ptr) or p.obj.kind != "heap" or p.obj.id not in st.mem:
                self.fault(st, f"delete of {p}")
            del st.mem[p.obj.id]
            st.ghost["freed"] = st.ghost.get("freed", ()) + (p.obj.id,)
            return None
        if nm in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return a[0]
        if nm == "memset":
            self.memset(st, *a)
            return a[0]
        if nm == "bcmp":
            # 0 iff the two ranges have equal contents
            p, q, n = a
            n = self.concretize(st, self.ival(n, 64), "bcmp length")
            if n == 0:
                return 0
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is not None and q.obj is not None):
                raise Unsupported("bcmp of flat memory")
            cs = []
            k = 0
            while k < n:
                x = st.cells(p.obj).get(p.off + k)
                y = st.cells(q.obj).get(q.off + k)
                if x is None or y is None or x[0] != y[0] or k + x[0] > n or isinstance(x[1], R.Node) or x[1] is UNDEF or y[1] is UNDEF:
                    raise Unsupported("bcmp of these cells")
                cs.append(self.ival(x[1], 8 * x[0]) == self.ival(y[1], 8 * y[0]))
                k += x[0]
            c = z3.simplify(z3.And(*cs))
            return 0 if z3.is_true(c) else 1 if z3.is_false(c) else z3.If(c, z3.IntVal(0), z3.IntVal(1))
        if nm == "__assert_fail":
            st.status = "assert"
            msg = ""
            try:
                msg = self.cstring(st, a[0])
            except Exception:
                pass
            st.retval = f"assertion {msg!r}"
            return None
        if nm in ("abort", "_ZSt9terminatev", "__clang_call_terminate"):
            st.status = "abort"
            st.retval = nm
            return None
        if nm in ("__cxa_allocate_exception",):
            o = self.new_obj(st, "exc", 1 << 16, "heap")
            return Ptr(o, 0)
        if nm in ("__cxa_throw", "__cxa_rethrow") or nm.startswith("_ZSt") and "throw" in nm:
            st.status = "throw"
            st.retval = nm
            return None
        if nm in ("__cxa_atexit", "__cxa_free_exception"):
            return 0
        raise Unsupported(f"call of external function {self.demangled.get(nm, nm)}")

    def cstring(self, st, p):
        out = []
        o = p.off
        self.init_global(st, p.obj)
        cells = st.cells(p.obj)
        while True:
            c = cells.get(o)
            if c is None or c[1] == 0:
                break
            out.append(chr(c[1]))
            o += 1
        return "".join(out)


PUSHED = object()
