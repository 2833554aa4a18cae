"""Contracts on sums over cells: measures of manifolds, integrals, norms, weak forms.

The loops are cut at the iterator protocol (engine/fold.py): an arbitrary element is visited in an arbitrary state of the
memory that the loop writes.  For a function f with output g(state of its loops) the obligations are, per output,
  base   g at the entry of the loop is zero (and zero if the container is empty);
  step   g(state after the iteration) - g(state before it) is the contribution that the contract gives to the element;
by induction the output is then the sum of the contributions of the elements, each of them once.
Maps filled by one loop and read by another one are ghosts: after the loop over a container, the map has the entry that
the iteration over an arbitrary element x inserted, with the key of x, for every x (the keys of the elements are
distinct: precondition)."""
import ctypes, math, os, pickle, random, re, select, signal
from fractions import Fraction as Fr
from engine import execu, frontend, fold, reals as R, opaque
from engine.execu import Ptr, UNDEF, NULL, Unsupported, Infeasible
from engine.names import parse, base
from engine.numeric import Harness, Contract, CURRENT


class Loops(fold.Fold):
    """the loops of one function: empty or not alike for one container, no nesting, with the ghosts of maps"""

    def __init__(self, ex, elements):
        fold.Fold.__init__(self, ex, elements, havoc=self.arbitrary)
        self.serial = 0
        self.iterations = {}

    def arbitrary(self, ex, st, k, old, size):
        """a cell in the zeros of a memset is a number too"""
        self.serial += 1
        if old is None and size == 8 and any(a <= k[1] and k[1] + 8 <= b for a, b in st.mem[k[0]].get(("zero",)) or ()):
            return R.var(f"acc{self.serial}")
        if old is not None and isinstance(old[1], R.Node):
            return R.var(f"acc{self.serial}")
        return UNDEF

    def at_entry(self, st, k):
        v = self.read(st, k)
        if v is None and any(a <= k[1] and k[1] + 8 <= b for a, b in st.mem[k[0]].get(("zero",)) or ()):
            return R.ZERO
        return v

    def compare(self, neg):
        def h(ex, st, a, I):
            x, y = self.get(st, a[0]), self.get(st, a[1])
            if x.kind == "end":
                x, y, a = y, x, [a[1], a[0]]
            if y.kind != "end" or x.container != y.container:
                raise Unsupported("comparison of iterators that are not (current, end)")
            if x.kind == "end":
                return int(not neg)
            if x.kind == "cur":
                return int(neg)
            if st.ghost.get("cut"):
                raise Unsupported("a loop within a loop")
            was = st.ghost.get(("nonempty", x.container))
            if was is not False:
                n = self.counter
                self.counter += 1
                entry = st.fork()
                dirty = self.find_dirty(st, a[0], x, I, neg)
                names = {}
                it = st.fork()
                it.ghost[("nonempty", x.container)] = True
                self.enter(it, dirty, names, a[0], x, n, None)
                ex.assign_call(it, I, int(neg))
                ends = [f for f in ex.subrun(it.fork()) if f.status == "iteration"]
                self.iterations[n] = ends
                accs = {v.args[0] for v in names.values() if isinstance(v, R.Node)}
                outs = []
                for f, new in self.comprehension(it, ends, accs):
                    out = st.fork()
                    if f is not None:
                        out.pc, out.rpc = list(f.pc), list(f.rpc)
                    out.ghost[("nonempty", x.container)] = True
                    self.smash(out, dirty, names)
                    out.ghost["loops"] = out.ghost.get("loops", ()) + ((n, x.container, dict(names), {k: self.at_entry(entry, k) for k in names}),)
                    for m, es in new.items():
                        out.ghost[m] = es
                        for _, v in es:
                            if v.obj.id not in out.mem:
                                out.mem[v.obj.id] = dict((f or ends[0]).mem[v.obj.id])
                                out.owned.add(v.obj.id)
                    self.put(out, a[0], fold.Iter(x.container, "end"))
                    ex.assign_call(out, I, int(not neg))
                    outs.append(out)
                if was is None:
                    ex.pending.extend(outs)
                    ex.pending.append(it)
                else:
                    ex.pending.append(it)
                    # the container is not empty: the path goes on from the exit only
                    ex.pending.extend(outs)
                    raise Infeasible()
            st.ghost[("nonempty", x.container)] = False
            self.put(st, a[0], fold.Iter(x.container, "end"))
            return int(not neg)
        return h

    def comprehension(self, start, ends, accs):
        """the entries of the maps after the loop, per path of the iteration over the arbitrary element (None: alike for all)"""
        maps = {m for f in ends for m in f.ghost if isinstance(m, tuple) and m[0] == "map"}
        out, alike = {}, True
        for m in maps:
            sets = [f.ghost.get(m, ()) for f in ends]
            if all(s == start.ghost.get(m, ()) for s in sets):
                continue
            ref = [self.content(ends[0], e) for e in sets[0]]
            for f, s in zip(ends, sets):
                c = [self.content(f, e) for e in s]
                alike = alike and c == ref
                for k, cells in c:
                    for o, v in cells:
                        if isinstance(v, str) and any(f"'{a}'" in v for a in accs):
                            raise Unsupported("the entries that the loop makes depend on the iterations before")
            out[m] = sets
        if alike:
            return [(None, {m: s[0] for m, s in out.items()})]
        for f in ends:
            if any(c.args[0] in accs for x in f.rpc[len(start.rpc):] for y in x[1:] for c in R.topo([R.lift(y)]) if c.op == "v"):
                raise Unsupported("the entries that the loop makes depend on the iterations before")
        return [(f, {m: s[i] for m, s in out.items()}) for i, f in enumerate(ends)]

    @staticmethod
    def content(st, entry):
        k, v = entry
        cells = st.mem[v.obj.id]
        r = []
        for o, c in sorted((o, c) for o, c in cells.items() if isinstance(o, int)):
            x = c[1]
            if isinstance(x, R.Node):
                names = sorted({m.args[0] for m in R.topo([x]) if m.op == "v"})
                x = f"{x.id} {names}"
            r.append((o, x if isinstance(x, (int, str)) else repr(x)))
        return repr(k), r


class Maps:
    """std::unordered_map as a ghost: pairs (content of the key, pointer to the value)"""

    def __init__(self, job):
        self.job = job

    def install(self, ex):
        ex.patterns.append((lambda d, f: True, self.dispatch))

    def dispatch(self, ex, st, a, I):
        pr = parse(ex.demangled[ex.cur_fn.name])
        if pr is None:
            return NotImplemented
        cls, f, args = pr
        cb = base(cls)
        if cb == "std::unordered_map":
            return self.call(ex, st, a, I, f, args)
        if cb.startswith("std::__detail::_Node_") and "iterator" in cb:
            return self.iterator(ex, st, a, I, f, cls)
        if cb == "std::__detail" and f in ("operator==", "operator!="):
            return self.same(ex, st, a, I, f)
        if cb in ("std::basic_string", "std::__cxx11::basic_string", "std::allocator") and cls.split("<")[0] == cb and "char" in cls:
            return NULL if I.ty.kind == "ptr" else None
        if cb in ("std::vector", "mito::utilities::SegmentedVector") and f not in (cb.split("::")[-1], "~" + cb.split("::")[-1]):
            raise Unsupported(f"{cb}::{f} of a container under contract")
        if cls.startswith("std::pair<std::__detail::_Node_") and f in ("pair", "~pair"):
            return None
        return NotImplemented

    def entries(self, st, m):
        k = ("map", m.obj.id, m.off)
        if k not in st.ghost:
            st.ghost[k] = tuple(st.ghost.get("given", ()))
        return k, st.ghost[k]

    @staticmethod
    def key(st, p):
        c = st.cells(p.obj).get(p.off)
        if c is None or not isinstance(c[1], Ptr):
            raise Unsupported("key of a map")
        return c[1]

    def find(self, st, m, key):
        for k, v in self.entries(st, m)[1]:
            if k == key:
                return v
        return None

    def iterator(self, ex, st, a, I, f, cls):
        if f == base(cls).split("::")[-1]:
            if len(a) > 1:          # conversion
                c = st.cells(a[1].obj).get(a[1].off) if a[1].obj is not None else None
                ex.store_obj(st, a[0].obj, a[0].off, 8, c[1] if c else a[1])
            return None
        raise Unsupported(f"iterators of maps: {f}")

    def same(self, ex, st, a, I, f):
        v = []
        for p in a:
            c = st.cells(p.obj).get(p.off)
            v.append(c[1] if c else NULL)
        eq = v[0] == v[1]
        return int(eq if f == "operator==" else not eq)

    def call(self, ex, st, a, I, f, args):
        if f in ("unordered_map", "~unordered_map"):
            if len(a) == 2 and "&&" in args:       # move
                k, e = self.entries(st, a[1])
                st.ghost[("map", a[0].obj.id, a[0].off)] = e
            return None
        m = a[0]
        if f in ("find",):
            v = self.find(st, m, self.key(st, a[1]))
            return v if v is not None else NULL
        if f in ("end", "cend"):
            return NULL
        if f in ("contains", "count"):
            return int(self.find(st, m, self.key(st, a[1])) is not None)
        if f in ("at", "operator[]"):
            v = self.find(st, m, self.key(st, a[1]))
            if v is None:
                if f != "at":
                    raise Unsupported("operator[] with a new key")
                st.status, st.retval = "throw", "the map has no such key"
                raise Infeasible()
            return v
        if f in ("emplace", "try_emplace"):
            key = self.key(st, a[1])
            if self.find(st, m, key) is None:
                n = a[2].obj.size - a[2].off
                o = ex.new_obj(st, "entry", n, "ghost")
                ex.objbyid[o.id] = o
                ex.memcpy(st, Ptr(o, 0), a[2], n)
                k, e = self.entries(st, m)
                st.ghost[k] = e + ((key, Ptr(o, 0)),)
                return [Ptr(o, 0), 1] if I.ty.kind == "struct" else UNDEF
            return [self.find(st, m, key), 0] if I.ty.kind == "struct" else UNDEF
        raise Unsupported("std::unordered_map::" + f)


class MapLoops(Loops):
    """loops over the entries of a map: the entries that are there before the loop stand for arbitrary entries"""

    def __init__(self, ex, job):
        Loops.__init__(self, ex, self.entry)
        self.maps = Maps(job)
        node = r"std::__detail::_Node_(const_)?iterator(_base)?<"
        cmp = self.compare
        self.install([("begin", lambda d, f: re.search(r"^std::unordered_map<.*>::c?begin\(\)( const)?$", d) is not None),
                      ("end", lambda d, f: self.visiting and re.search(r"^std::unordered_map<.*>::c?end\(\)( const)?$", d) is not None),
                      ("inc", lambda d, f: re.search(node + r".*>::operator\+\+\((int)?\)$", d) is not None),
                      ("deref", lambda d, f: re.search(node + r".*>::operator(\*|->)\(\)", d) is not None)])
        self.visiting = True
        for neg, op in ((True, "!="), (False, "==")):
            ex.patterns.append((lambda d, f, op=op: "std::__detail::operator" + op in d and "_Node_" in d, cmp(neg)))
        self.maps.install(ex)

    def begin(self, kind):
        h = fold.Fold.begin(self, kind)

        def g(ex, st, a, I):
            if kind == "begin":
                st.ghost[("nonempty", a[-1])] = True if self.maps.entries(st, a[-1])[1] else False
            return h(ex, st, a, I)
        return g

    def entry(self, ex, st, container, lp):
        es = self.maps.entries(st, container)[1]
        if len(es) != 1:
            raise Unsupported("a loop over a map of several entries")
        k, v = es[0]
        n = v.obj.size - v.off
        o = ex.new_obj(st, "entry", 8 + n, "ghost")
        ex.objbyid[o.id] = o
        ex.store_obj(st, o, 0, 8, k)
        ex.memcpy(st, Ptr(o, 8), v, n)
        return Ptr(o, 0)


class Job:
    """a sum over cells: what the harness function computes, against the contributions of the elements.
    delta(I): per output, {container: contribution}, container None for the only one"""

    def __init__(self, H, fn, inputs, nout, delta, where, label, requires=None, positive=(), pre=None, result=None, natural=None, tol=1e-12, containers=None, native=2, sample=None, ints=None):
        self.H, self.fn, self.inputs, self.nout, self.delta, self.where, self.label = H, fn, inputs, nout, delta, where, label
        self.result, self.natural, self.tol, self.native = result or (lambda o: o), natural or (lambda x: x), tol, native
        self.C = Contract(H, fn, inputs, nout, None, positive=positive, pre=pre, where=where, tol=tol, ufn=opaque.ufn, label=label, requires=requires)
        self.order = containers
        self.names = [n for n, _, _ in inputs]
        self.pushes = []

    # ------------------------------------------------------------ the run
    def setup(self, ex, st):
        opaque.install(ex)
        self.loops = Loops(ex, self.element)
        self.loops.install(fold.SEGVEC + fold.STDVEC)
        Maps(self).install(ex)
        ex.handlers["fold_element"] = self.h_element
        ex.handlers["fold_value"] = self.h_value

    def h_element(self, ex, st, a, I):
        st.ghost["elements"] = st.ghost.get("elements", ()) + ((a[1], a[0]),)
        return None

    def h_value(self, ex, st, a, I):
        if a[0] == NULL:
            return None
        k = Maps.key(st, a[0])
        st.ghost["given"] = st.ghost.get("given", ()) + ((k, a[1]),)
        return None

    def element(self, ex, st, container, lp):
        for c, e in st.ghost.get("elements", ()):
            if c == container or c == NULL:
                return e
        raise Unsupported("a loop over a container that is not under contract")

    def which(self, container, st):
        """position of a container in the order of registration"""
        for i, (c, e) in enumerate(st.ghost.get("elements", ())):
            if c == container or c == NULL:
                return i

    def check(self):
        ctx = self.H.ctx
        C = self.C
        CURRENT["pos"], CURRENT["req"], CURRENT["pit"] = C.positive, C.requires, C.pit
        self.rnd = random.Random(ctx.seed * 104729 + len(ctx.obls))
        self.samples = [s for s in (C.sample(self.rnd) for _ in range(24)) if s is not None]
        if len(self.samples) < 2:
            raise RuntimeError(f"{self.label}: the precondition has no sample (vacuous contract)")
        ctx.vacuity_ok()
        saved = self.H.setup
        self.H.setup = None
        try:
            paths = self.H.execute(self.fn, self.names, self.nout, setup=self.setup, max_paths=200)
            self.obligations(paths)
            if ctx.tier == "thorough" and not ctx.failures:
                # the contract against the compiled code
                bad, n = self.search(400)
                if bad:
                    self.fail("the compiled code", "the obligations hold and the compiled code differs")
                ctx.engine_checks += n
        except Unsupported as e:
            self.bounded(str(e))
        finally:
            self.H.setup = saved

    def obligations(self, paths):
        ctx, C = self.H.ctx, self.C
        I = {n: R.var(n) for n in self.names}
        want = self.delta(I)
        rets = [p for p in paths if p.status == "ret"]
        if not rets or not any(p.ghost.get("loops") for p in rets):
            raise Unsupported("no loop over the elements")
        if any(p.ghost.get("cut") for p in rets):
            raise Unsupported("a loop is left early")
        for p in rets:
            for c, e in p.ghost.get("elements", ()):
                if not any(m[0] == "nonempty" and (c == NULL or m[1] == c) for m in p.ghost if isinstance(m, tuple)):
                    raise Unsupported("a container that is not visited by iterators")
        for k, p in enumerate(paths):
            if p.status in ("ret", "iteration"):
                continue
            if C.infeasible(p):
                continue
            self.fail(f"no {p.status}", f"{p.status}: {p.retval}")
        for k, p in enumerate(rets):
            tag = self.label + (f"/path{k}" if len(rets) > 1 else "")
            out = [None if o is None else self.result(o) for o in p.out]
            if any(o is None for o in out):
                self.fail("outputs defined", "outputs not written")
                continue
            loops = p.ghost.get("loops", ())
            parts = [{} for _ in out]       # container -> [(conditions, difference)] per loop
            chain = []
            for n, cont, names, entry in reversed(loops):
                var = {key: v for key, v in names.items() if isinstance(v, R.Node)}
                used = {m.args[0] for m in R.topo(out) if m.op == "v"}
                if any(v.args[0] in used for v in var.values()):
                    ends = self.loops.iterations[n]
                    for f in ends:
                        if C.infeasible(f):
                            continue
                        after = {}
                        for key, v in var.items():
                            c = f.mem.get(key[0], {}).get(key[1])
                            if c is None or not isinstance(c[1], R.Node):
                                if v.args[0] in used:
                                    raise Unsupported("state after the iteration")
                                continue
                            after[v.args[0]] = c[1]
                        chain.append((cont, n, f, [R.sub(x, y) for x, y in zip(R.subst(out, after), out)]))
                    first = {}
                    for key, v in var.items():
                        e = entry[key]
                        if not isinstance(e, R.Node):
                            if v.args[0] in used:
                                raise Unsupported("state at the entry of the loop")
                            continue
                        first[v.args[0]] = e
                    out = R.subst(out, first)
            for i, o in enumerate(out):
                self.equal(f"{tag}.the sum starts from zero [{i}]", p, R.lift(o), R.ZERO)
            # contributions, loop by loop; of several loops over one container one contributes
            conts = []
            for n, cont, _, _ in loops:
                if cont not in conts:
                    conts.append(cont)
            for cont in conts:
                w = want[self.which(cont, p)]
                mine = [c for c in chain if c[0] == cont]
                ns = sorted({c[1] for c in mine})
                if not ns:
                    for i in range(self.nout):
                        self.equal(f"{tag}.contribution of an element [{i}]", p, R.ZERO, w[i])
                    continue
                import itertools
                for combo in itertools.product(*[[c for c in mine if c[1] == n] for n in ns]):
                    class P:
                        rpc = [x for c in combo for x in c[2].rpc]
                    for i in range(self.nout):
                        self.equal(f"{tag}.contribution of an element [{i}]", P, sum((c[3][i] for c in combo), R.ZERO), w[i])

    def equal(self, name, p, lhs, rhs):
        import time
        ctx, C = self.H.ctx, self.C
        t = time.time()
        d = R.sub(R.lift(lhs), R.lift(rhs))
        if C.prove_zero(p, d, self.tol):
            ctx.discharged(name, C.backend, self.where, time.time() - t)
            return
        if p.rpc and C.infeasible(p):
            ctx.discharged(name + " (path infeasible)", "z3", self.where)
            return
        # refuted at a point of the path?
        names = sorted({m.args[0] for m in R.topo([lhs, rhs] + [x for c in p.rpc for x in c[1:]]) if m.op == "v"} - set(self.names))
        bad, n = None, 0
        cand = [s for s in self.samples if C.follows(p, {**{v: 1.0 for v in names}, **s})] if p.rpc else self.samples
        if not cand:
            try:
                cand = C.points(p)
            except KeyError:
                pass
        for s in (cand or self.samples) * 20:
            env = dict(s)
            for v in names:
                env[v] = self.rnd.choice([self.rnd.uniform(-3, 3), self.rnd.uniform(0, 5)])
            if not C.follows(p, env):
                continue
            try:
                x, y = R.evalf([lhs, rhs], env, C.ufn)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            n += 1
            if abs(x - y) > 1e-7 * max(abs(x), abs(y)):
                bad = (s, x, y)
                break
        if bad is None and n >= 12:
            ctx.stand_in(name, f"identity evaluated at {n} random points of the precondition", where=self.where)
            return
        s, x, y = bad or (None, None, None)
        self.fail(name, f"an iteration adds {x!r}, contract requires {y!r}" if bad else "identity not established", s)

    # ------------------------------------------------------------ on the compiled code
    def run_native(self, xs):
        """outputs of the compiled code, in a process of its own: None where it fails"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                with os.fdopen(w, "wb") as f:
                    for x in xs:
                        pickle.dump(self.H.call_native(self.fn, x, self.nout), f)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        out = []
        import time
        end = time.time() + 120
        buf = b""
        while time.time() < end:
            ok, _, _ = select.select([r], [], [], 1)
            if not ok:
                continue
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        import io
        f = io.BytesIO(buf)
        while len(out) < len(xs):
            try:
                out.append(pickle.load(f))
            except Exception:
                break
        return out + [None] * (len(xs) - len(out))

    times = (1, 1)          # how often the native harness has each cell or block

    def total(self, cells):
        want = [0.0] * self.nout
        for c, k in zip(cells, self.times):
            for part in self.D:
                want = [a + k * b for a, b in zip(want, R.evalf(part, c, opaque.ufn))]
        return [self.natural(w) for w in want]

    def pairs(self, k, first=None):
        """inputs of the compiled code with the outputs required, and what rounding may add to them"""
        self.D = [[R.lift(x) for x in part] for part in self.delta({n: R.var(n) for n in self.names})]
        S, rnd = self.samples, self.rnd
        while len(S) < 60:
            s = self.C.sample(rnd)
            if s is None:
                break
            S.append(s)
        res = []
        for i in range(k):
            cells = [rnd.choice(S) for _ in range(self.native)]
            if first is not None and i < 8:
                cells = [first] * self.native if i == 0 else [first if j == i % self.native else c for j, c in enumerate(cells)]
            try:
                want = self.total(cells)
                tol = [1e-6 * abs(w) + 1e-300 for w in want]
                for _ in range(2):
                    near = self.total([{n: v * (1 + rnd.uniform(-1, 1) * 1e-14) for n, v in c.items()} for c in cells])
                    tol = [t + 1e3 * abs(a - b) for t, a, b in zip(tol, near, want)]
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            res.append((cells, self.layout(cells), want, tol))
        return res

    def layout(self, cells):
        """cell after cell; `blocks`: block after block"""
        blocks = getattr(self, "blocks", None) or [len(self.names)]
        xs, a = [], 0
        for b in blocks:
            for c in cells:
                xs += [c[n] for n in self.names[a:a + b]]
            a += b
        return xs

    def search(self, k, first=None):
        """(inputs, outputs, required, relative error) of a failure of the compiled code, number of inputs"""
        ps = self.pairs(k, first)
        outs = self.run_native([p[1] for p in ps])
        n = 0
        for (cells, xs, want, tol), got in zip(ps, outs):
            if got is None:
                return (xs, "the program fails", want), n
            n += 1
            if not all(abs(a - b) <= t for a, b, t in zip(got, want, tol)):
                return (xs, got, want), n
        return None, n

    def fail(self, label, what, first=None):
        ctx = self.H.ctx
        name = label if label.startswith(self.label.split(':')[0]) else f"{self.label}.{label}"
        bad = None
        try:
            bad, _ = self.search(200, first)
        except Exception as e:
            what += f" (replay: {e})"
        if bad:
            xs, got, want = bad
            ctx.failed(name, f"{what}; the compiled code on {self.native} cells {xs}: {got}, required {want}", self.where,
                       replay=dict(kind="numeric", harness=self.H.name, fn=self.fn, inputs=xs, nout=self.nout, native_outputs=got, required=want), confirmed=True)
        else:
            ctx.failed(name, what, self.where, replay=dict(kind="none", harness=self.H.name, fn=self.fn, detail=what), confirmed=False)

    def bounded(self, why):
        ctx = self.H.ctx
        bad, n = self.search(150 if ctx.tier == "quick" else 1500)
        if bad:
            xs, got, want = bad
            ctx.failed(f"{self.label}.sum over the cells", f"not verifiable ({why}); the compiled code on {self.native} cells {xs}: {got}, required {want}", self.where,
                       replay=dict(kind="numeric", harness=self.H.name, fn=self.fn, inputs=xs, nout=self.nout, native_outputs=got, required=want), confirmed=True)
        else:
            ctx.stand_in(self.label, f"not verifiable ({why}); {n} random pairs of cells on the compiled code", where=self.where)


def harness(ctx):
    return Harness(ctx, "sums.cc", mode="O0raw")


def under_contract(ctx, *parts):
    """the parts of a property that are sums over cells"""
    ctx.assume("containers: iteration visits every element exactly once (U02; std::vector by its specification)",
               "std::unordered_map satisfies its specification; the cells of a mesh have distinct simplices, as far as the integrator maps them to points",
               "quadrature weights and points are read out of the shipped tables, which are under contract in Q01")
    for f in parts:
        try:
            f(ctx)
        except frontend.BuildError as e:
            ctx.notes.append(f"{f.__name__}: the harness does not bind to the current tree: {str(e)[:300]}")


def totals(ctx):
    """manifolds::Manifold::volume()"""
    from .geometry_spec import CART, POLAR, det
    from .G04 import boxes, verts
    H = harness(ctx)
    for N, c in ((1, "c1"), (2, "c2"), (3, "c3"), (2, "pol")):
        S = POLAR if c == "pol" else CART[N]

        def delta(I, N=N, S=S):
            P = [S.position(q) for q in verts(N, S, I)]
            return [[det([[a - b for a, b in zip(p, P[0])] for p in P[1:]]) / math.factorial(N)]]
        Job(H, f"total_{N}_{c}", boxes(N, S), 1, delta, "mito::manifolds::Manifold::volume()", f"volume of a manifold of {N}-simplices in {S.name} coordinates",
            requires=lambda I, N=N, S=S: (r for q in verts(N, S, I) for r in S.regular(q)), positive={f"p{a}_0" for a in range(N + 1)} if S.name != "cartesian" else ()).check()


def rule_points(ctx, name, n, r):
    """the rule, read out of the code under verification (under contract in Q01)"""
    H = rules(ctx)
    p = H.execute(f"rule_{name}_{r}", [], 1 + (n + 1) * 40)[0].out
    q = int(p[0].args[0])
    return [(p[1 + (n + 1) * i], p[2 + (n + 1) * i:2 + n + (n + 1) * i]) for i in range(q)]


def rules(ctx):
    if getattr(ctx, "_rules", None) is None:
        ctx._rules = Harness(ctx, "quadrature.cc")
    return ctx._rules


NAMES = {1: "segment", 2: "triangle", 3: "tetrahedron"}


def integrals(ctx):
    """quadrature::Integrator"""
    from .geometry_spec import CART, det
    from .G04 import boxes, verts
    opq = opaque.opq
    H = harness(ctx)
    for kind, N, c, r in (("integral", 1, "c1", 1), ("integral", 1, "c1", 2), ("integral", 2, "c2", 1), ("integral", 2, "c2", 2), ("integral", 2, "c2", 4),
                          ("integral", 3, "c3", 2), ("surface", 1, "c2", 2), ("surface", 2, "c3", 2)):
        S = CART[int(c[1])]
        Q = rule_points(ctx, NAMES[N], N, r)

        def delta(I, N=N, S=S, Q=Q, kind=kind):
            V = verts(N, S, I)
            rows = [[a - b for a, b in zip(p, V[0])] for p in V[1:]]
            if kind == "surface":
                q3 = list(V[0]) + [R.ZERO] * (3 - S.D)
                rows = [[opq(2, i, 0, *q3) for i in range(S.D)]] + rows
            vol = det(rows) / math.factorial(N)
            s = R.ZERO
            for w, xi in Q:
                L = list(xi) + [R.ONE - sum(xi, R.ZERO)]
                x = [sum((l * v[d] for l, v in zip(L, V)), R.ZERO) for d in range(S.D)]
                s = s + w * opq(1, 0, 0, *x) * vol
            return [[s]]
        Job(H, f"{kind}_{N}_{c}_{r}", boxes(N, S), 1, delta, "mito::quadrature::Integrator", f"integral over {N}-simplices in {S.D}D, rule {r}", tol=Fr(1, 10 ** 12)).check()


def norms(ctx):
    """fem::compute_l2_norm and FemField::localize"""
    from . import E02
    from .fem_spec import half, det
    H = harness(ctx)
    for en, r in (("seg1", 2), ("tri1", 2), ("tri2", 4)):
        E = E02.ELEMS[en]
        N, D = E.N, E.D
        _, bp = E.box()
        ref = R.ONE if D == 1 else half
        Q = rule_points(ctx, NAMES[D], D, r)

        def delta(I, E=E, Q=Q, ref=ref):
            J = det(E.jacobian(I))
            s = R.ZERO
            for w, xi in Q:
                u = sum((I[f"u{a}"] * p for a, p in enumerate(E.phi(xi))), R.ZERO)
                e = opaque.opq(1, 0, 0, *E.map(I, xi)) - u
                s = s + ref * w * J * e * e
            return [[s]]

        def full(I, E=E, Q=Q, ref=ref, l2=delta):
            """... and of its gradient, with respect to the coordinates of space"""
            J, X = det(E.jacobian(I)), [R.var(f"X{j}") for j in range(E.D)]
            s = l2(I)[0][0]
            for w, xi in Q:
                g, x = E.gradients(I, xi), E.map(I, xi)
                for i in range(E.D):
                    df = R.subst([opaque.D(opaque.opq(1, 0, 0, *X), f"X{i}")], {f"X{j}": v for j, v in enumerate(x)})[0]
                    e = df - sum((I[f"u{a}"] * g[a][i] for a in range(E.N)), R.ZERO)
                    s = s + ref * w * J * e * e
            return [[s]]

        def req(I, E=E):
            yield "gt", det(E.jacobian(I)), 0
        J = Job(H, f"h1_{en}_{r}", bp + [(f"u{a}", -2, 2) for a in range(N)], 1, full, "mito::fem::compute_h1_norm, FemField::localize", f"H1 norm over elements {en}, rule {r}",
                requires=req, result=lambda o: o * o, natural=math.sqrt, tol=Fr(1, 10 ** 12))
        J.blocks = [len(bp), N]
        J.C.nf_limit = 10 ** 5
        J.check()
        J = Job(H, f"l2_{en}_{r}", bp + [(f"u{a}", -2, 2) for a in range(N)], 1, delta, "mito::fem::compute_l2_norm, FemField::localize", f"L2 norm over elements {en}, rule {r}",
                requires=req, result=lambda o: o * o, natural=math.sqrt, tol=Fr(1, 10 ** 12))
        J.blocks = [len(bp), N]
        J.check()


def weakforms(ctx):
    """fem::Weakform: compute_blocks"""
    H = harness(ctx)
    for en, N in (("seg1", 2), ("tri1", 3), ("tri2", 6)):
        names = [(f"m{i}{j}", -2, 2) for i in range(N) for j in range(N)] + [(f"v{i}", -2, 2) for i in range(N)]

        def delta(I, N=N):
            M = [I[f"m{i}{j}"] for i in range(N) for j in range(N)]
            v = [I[f"v{i}"] for i in range(N)]
            return [M + [R.ZERO] * N, [R.ZERO] * (N * N) + v]
        J = Job(H, f"weakform_{en}", names, N * N + N, delta, "mito::fem::Weakform::compute_blocks", f"weak form of {en}")
        J.times = (1, 2)
        J.check()
        blocks_added(ctx, H, en, J)


def blocks_added(ctx, H, en, J):
    """Weakform::add_block: the block is appended to the blocks of its side, and nothing else happens"""
    from engine.execu import Ex, State
    for side in ("lhs", "rhs"):
        where = "mito::fem::Weakform::add_block"
        name = f"weak form of {en}: add_block of the {side}."
        try:
            if H.broken:
                raise Unsupported("clang rejects the current tree")
            ex = Ex(H.mod)
            ex.objbyid = {}
            st = State()
            w, b = ex.new_obj(st, "weakform", 4096, "param"), ex.new_obj(st, "block", 4096, "param")
            calls = []

            def dispatch(ex, st, a, I):
                pr = parse(ex.demangled[ex.cur_fn.name])
                if pr is None or base(pr[0]) != "std::vector":
                    return NotImplemented
                v = None
                if pr[1] in ("push_back", "emplace_back"):
                    c = st.cells(a[1].obj).get(a[1].off)
                    v = c[1] if c else None
                    st.ghost["calls"] = st.ghost.get("calls", ()) + ((a[0], v),)
                    return NULL if I.ty.kind == "ptr" else None
                raise Unsupported(f"std::vector::{pr[1]}")
            ex.patterns.append((lambda d, f: True, dispatch))
            at = ex.run(H.mod.funcs[f"{side}_of_{en}"], [Ptr(w, 0)], st.fork())
            at = at[0].retval
            paths = ex.run(H.mod.funcs[f"add_{side}_{en}"], [Ptr(w, 0), Ptr(b, 0)], st.fork())
            for p in paths:
                ok = p.status == "ret" and p.ghost.get("calls", ()) == ((at, Ptr(b, 0)),)
                if ok:
                    ctx.discharged(name + "the block is appended, once", "path", where)
                else:
                    J.fail(name + "the block is appended, once", f"{p.status}: {p.ghost.get('calls')}")
        except Unsupported as e:
            J.bounded(f"add_block: {e}")
