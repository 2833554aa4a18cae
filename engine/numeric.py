"""Contracts on numeric functions: every output of the function is an exact real expression of
its symbolic inputs; postconditions are identities (or inequalities) between them."""
import ctypes, math, random, time
import z3
from . import ir, execu, reals as R, frontend as F
from .execu import Ex, State, Ptr


class Harness:
    """a harness translation unit, compiled to bitcode (verification) and, on demand, natively"""

    def __init__(self, ctx, src, mode="O1", defs=()):
        self.ctx, self.src, self.defs = ctx, F.harness(src), defs
        self.name = src
        self._so = None
        self.broken = None
        try:
            self.mod = ir.Module(F.bitcode(self.src, mode, defs))
        except F.BuildError as e:
            # the verifying front end rejects the tree: bounded stand-ins if the building compiler accepts it
            self.native()
            self.mod, self.broken = None, str(e)[-300:]
            ctx.notes.append(f"{src}: clang rejects the current tree ({self.broken}); contracts run as bounded stand-ins on the g++ build")
        self.setup = None

    def native(self):
        if self._so is None:
            self._so = ctypes.CDLL(F.shared(self.src, self.defs))
        return self._so

    def call_native(self, fn, xs, nout, ints=()):
        f = getattr(self.native(), fn)
        a = (ctypes.c_double * max(1, len(xs)))(*xs)
        o = (ctypes.c_double * max(1, nout))(*([float("nan")] * max(1, nout)))
        f.restype = None
        f(a, o, *[ctypes.c_int(i) for i in ints])
        return list(o)[:nout]

    def execute(self, fn, inputs, nout, ints=(), setup=None, **kw):
        """symbolic execution of fn(const double* in, double* out, int...): list of paths"""
        if self.broken:
            raise execu.Unsupported('clang rejects the current tree')
        ex = Ex(self.mod, **kw)
        ex.objbyid = {}
        st = State()
        inp = ex.new_obj(st, "in", 8 * max(1, len(inputs)), "stack")
        out = ex.new_obj(st, "out", 8 * max(1, nout), "stack")
        for i, n in enumerate(inputs):
            st.mem[inp.id][8 * i] = (8, n if isinstance(n, R.Node) else R.var(n))
        if setup:
            setup(ex, st)
        if self.setup:
            self.setup(ex, st)
        ex.check_real_feasible = feas
        if fn not in self.mod.funcs:
            raise execu.Unsupported(f"function {fn} is not in the bitcode")
        paths = ex.run(self.mod.funcs[fn], [Ptr(inp, 0), Ptr(out, 0)] + [i & 0xffffffff for i in ints], st)
        self.ctx.inlined |= ex.executed
        self.ctx.models |= {ex.dname(self.mod.funcs[n])[:100] for n in ex.contracted}
        for p in paths:
            c = p.mem.get(out.id, {})
            p.out = []
            for i in range(nout):
                x = c.get(8 * i)
                if x is None:
                    z = c.get(("zero",)) or ()
                    x = (8, R.ZERO) if any(a <= 8 * i and 8 * i + 8 <= b for a, b in z) else (8, None)
                v = x[1]
                if isinstance(v, int) and v == 0:
                    v = R.ZERO
                p.out.append(v if isinstance(v, R.Node) else None)
            p.ex = ex
        return paths


CURRENT = {"pos": (), "dom": None}


def feas(ex, st, p, a, b):
    """decide a comparison from the sign preconditions: True/False if it is implied"""
    d = R.sub(a, b)
    pos = CURRENT["pos"]
    try:
        nf = R.NF(positive=pos, limit=3000)
        r = nf.normal(d)
    except (R.TooBig, ZeroDivisionError):
        return feas_req(p, d)
    if not r[0]:
        return p in ("eq", "le", "ge")
    if nf.is_positive(r):
        return p in ("ne", "gt", "ge")
    if nf.is_positive(({m: -c for m, c in r[0].items()}, r[1])):
        return p in ("ne", "lt", "le")
    return feas_req(p, d)


def feas_req(p, d):
    """a - b is the difference of a precondition, up to sign"""
    for q, x, y in CURRENT.get("req", ()):
        e = R.sub(x, y)
        for s, f in ((1, R.sub(d, e)), (-1, R.add(d, e))):
            if CURRENT["pit"].zero(f):
                k = q if s == 1 else {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(q, q)
                t = {"gt": ("gt", "ge", "ne"), "lt": ("lt", "le", "ne"), "ge": ("ge",), "le": ("le",), "ne": ("ne",), "eq": ("eq", "le", "ge")}[k]
                f_ = {"gt": ("le", "lt", "eq"), "lt": ("ge", "gt", "eq"), "ge": ("lt",), "le": ("gt",), "ne": ("eq",), "eq": ("ne", "lt", "gt")}[k]
                if p in t:
                    return True
                if p in f_:
                    return False
    return None


def holds(p, x, y):
    return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]


def mpeval(roots, env, prec=60, ufn=None):
    import mpmath as mp
    mp.mp.dps = prec
    FNS = {"sqrt": mp.sqrt, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "exp": mp.exp, "log": mp.log, "acos": mp.acos,
           "asin": mp.asin, "atan": mp.atan, "fabs": abs, "atan2": mp.atan2, "pow": mp.power, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "cbrt": lambda x: mp.sign(x) * mp.cbrt(abs(x))}
    v = {}
    for n in R.topo(roots):
        o = n.op
        if o == "c":
            x = mp.mpf(n.args[0].numerator) / mp.mpf(n.args[0].denominator)
        elif o == "v":
            x = mp.mpf(env[n.args[0]])
        else:
            a = [v[k.id] for k in n.args if isinstance(k, R.Node)]
            x = (a[0] + a[1] if o == "+" else a[0] - a[1] if o == "-" else a[0] * a[1] if o == "*" else
                 a[0] / a[1] if o == "/" else -a[0] if o == "neg" else FNS[o](*a) if o in FNS else ufn(n, a))
        v[n.id] = x
    return [v[r.id] for r in roots]


class Contract:
    """inputs: list of (name, lo, hi) - the sampling box of the counterexample search;
    positive: names whose sign is a precondition; pre(env): further precondition (python, for
    sampling); post(I, O): yields (label, lhs, rhs) identities or (label, '>=0'|'>0', expr)"""

    def __init__(self, H, fn, inputs, nout, post, positive=(), pre=None, where=None, ints=(), tol=0, ufn=None,
                 label=None, allow_throw=None, setup=None, subst=None, max_paths=400, requires=None, sample=None, nf_limit=None, partial=False):
        self.H, self.fn, self.inputs, self.nout, self.post = H, fn, inputs, nout, post
        self.positive, self.pre, self.where, self.ints, self.tol = set(positive), pre, where or fn, ints, tol
        self.label = label or fn
        self.allow_throw, self.setup, self.subst, self.max_paths, self.ufn = allow_throw, setup, subst, max_paths, ufn
        self.sample_fn = sample
        self.partial = partial      # outputs may be left unwritten (their number is itself an output)
        # preconditions (pred, lhs, rhs) over the inputs, used to decide comparisons and exits
        self.requires = list(requires({n: R.var(n) for n, _, _ in inputs})) if requires else []
        self.requires = [(a, R.lift(b), R.lift(c)) for a, b, c in self.requires]
        self.nf_limit = nf_limit or (4000 if H.ctx.tier == "quick" else 60000)
        self.pit = R.PIT(list(self.positive) + [b - c for p, b, c in self.requires if p == "gt"] + [c - b for p, b, c in self.requires if p == "lt"])

    def admissible(self, env):
        if self.pre is not None and not self.pre(env):
            return False
        for p, a, b in self.requires:
            try:
                x, y = R.evalf([a, b], env, self.ufn)
            except (ValueError, ZeroDivisionError, OverflowError):
                return False
            if not holds(p, x, y):
                return False
        return True

    def sample(self, rnd):
        for _ in range(2000):
            if self.sample_fn is not None:
                env = self.sample_fn(rnd)
            else:
                env = {n: rnd.uniform(lo, hi) for n, lo, hi in self.inputs}
            if self.admissible(env):
                return env
        return None

    def check(self):
        ctx = self.H.ctx
        t = time.time()
        CURRENT["pos"] = self.positive
        CURRENT["req"] = self.requires
        CURRENT["pit"] = self.pit
        names = [n for n, _, _ in self.inputs]
        rnd = random.Random(ctx.seed * 7919 + len(ctx.obls))
        try:
            paths = self.H.execute(self.fn, names, self.nout, self.ints, setup=self.setup, max_paths=self.max_paths)
        except execu.Unsupported as e:
            return self.fallback(rnd, str(e))
        I = {n: R.var(n) for n in names}
        samples = [s for s in (self.sample(rnd) for _ in range(40)) if s is not None]
        if not samples:
            raise RuntimeError(f"{self.label}: the precondition has no sample (vacuous contract)")
        ctx.vacuity_ok()
        if ctx.tier == "thorough":
            self.self_check(paths, samples[:8])
        met = {id(p.obls.met): p.obls.met for p in paths}
        for n, g, pc, _ in [o for m in met.values() for o in m]:
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*pc, z3.Not(g))
            if s.check() == z3.unsat:
                ctx.discharged(f"{self.label}.{n}", "z3", self.where)
            else:
                ctx.failed(f"{self.label}.{n}", "not proved", self.where, confirmed=False)
        nret = 0
        # (an iteration of a loop that is cut: its effect is in the paths that leave the loop)
        paths = [p for p in paths if p.status != "iteration"]
        for k, p in enumerate(paths):
            tag = self.label + (f"/path{k}" if len(paths) > 1 else "")
            if p.status != "ret":
                # must not happen under the precondition: look for an input that gets there
                w = self.witness(p, samples)
                if self.allow_throw and self.allow_throw(I, p):
                    ctx.discharged(tag + ".exceptional exit allowed", "path", self.where)
                    continue
                if w is None and self.infeasible(p):
                    ctx.discharged(tag + f".no {p.status}", "z3", self.where)
                    continue
                ctx.failed(tag + f".no {p.status}", f"{p.status}: {p.retval} {p.trace[-1:]}", self.where,
                           replay=dict(kind="numeric", harness=self.H.name, fn=self.fn, inputs=w and [w[n] for n in names], names=names, ints=list(self.ints)),
                           confirmed=w is not None)
                continue
            nret += 1
            if not self.partial and any(o is None for o in p.out) and None in [p.out[i] for i in range(self.nout)]:
                missing = [i for i, o in enumerate(p.out) if o is None]
                w = self.witness(p, samples)
                if w is None and self.infeasible(p):
                    continue
                ctx.failed(tag + ".outputs defined", f"outputs {missing[:8]} are not written", self.where, confirmed=False)
                continue
            for ob in self.post(I, p.out):
                self.obligation(tag, p, ob, samples, rnd, names)
        if nret == 0 and paths and not any(f["where"] == self.where for f in ctx.failures):
            raise RuntimeError(f"{self.label}: no path returns (vacuous contract)")
        self.elapsed = time.time() - t
        return paths

    def witness(self, p, samples):
        for s in samples:
            if self.follows(p, s):
                return s
        if self.infeasible(p):
            p._infeasible = True
            return None
        s = self.points(p)
        return s[0] if s else None

    def violation(self, conds, env):
        """how far the conditions are from holding (0: all hold)"""
        v = 0.0
        for pr, a, b in conds:
            try:
                x, y = R.evalf([a, b], env, self.ufn)
            except (ValueError, ZeroDivisionError, OverflowError):
                return float("inf")
            if x != x or y != y:
                return float("inf")
            if not holds(pr, x, y):
                v += abs(x - y) / (1 + abs(x) + abs(y)) + 1e-9
        return v

    def points(self, p, want=8):
        """admissible inputs that follow the path, by a guided search from random inputs"""
        got = getattr(p, "_points", None)
        if got is not None:
            return got
        import zlib
        rnd = random.Random(zlib.crc32(repr((self.label, len(p.rpc))).encode()))
        conds = list(p.rpc) + self.requires
        fixed = {}
        for pr, a, b in p.rpc:
            if pr == "eq":
                for u, w in ((a, b), (b, a)):
                    if u.op == "v" and R.isc(w):
                        fixed[u.args[0]] = float(w.args[0])
                    elif u.op == "-" and R.isc(w) and w.args[0] == 0 and u.args[0].op == "v" and R.isc(u.args[1]):
                        fixed[u.args[0].args[0]] = float(u.args[1].args[0])
        got, t0 = [], time.time()
        names = [n for n, _, _ in self.inputs]
        box = {n: (lo, hi) for n, lo, hi in self.inputs}
        consts = sorted({float(m.args[0]) for pr, a, b in p.rpc for m in R.topo([a, b]) if m.op == "c"}) + [0.0, 1.0]
        while len(got) < want and time.time() - t0 < 6:
            s = self.sample(rnd)
            if s is None:
                break
            s = dict(s)
            s.update(fixed)
            if rnd.random() < .3:
                k = 10 ** rnd.uniform(-2, 3)
                for n in names:
                    if rnd.random() < .5 and n not in fixed:
                        s[n] *= k
            v = self.violation(conds, s)
            step = 1.0
            for it in range(400):
                if v == 0:
                    break
                c = dict(s)
                r = rnd.random()
                for n in rnd.sample(names, min(len(names), 1 + int(rnd.expovariate(1)))):
                    if n in fixed:
                        continue
                    lo, hi = box[n]
                    if r < .5:
                        c[n] += rnd.gauss(0, 1) * step * (hi - lo)
                    elif r < .75:
                        c[n] *= 10 ** rnd.gauss(0, step)
                    elif r < .9:
                        c[n] = rnd.choice(consts)
                    else:
                        c[n] = c[rnd.choice(names)]
                if any(x and not 1e-9 < abs(x) < 1e9 for x in c.values()):
                    continue        # away from rounding, underflow and overflow
                w = self.violation(conds, c)
                if w <= v and w < float("inf"):
                    s, v = c, w
                    step = min(step * 1.5, 30)
                else:
                    step = max(step * .93, 1e-4)
            if v == 0 and self.admissible(s) and self.follows(p, s):
                got.append(s)
        p._points = got
        return got

    def follows(self, p, env):
        try:
            for pr, a, b in p.rpc:
                x, y = R.evalf([a, b], env, self.ufn)
                if not holds(pr, x, y):
                    return False
            return True
        except (ValueError, ZeroDivisionError, OverflowError):
            return False

    def infeasible(self, p):
        """z3 (nonlinear reals, function applications opaque): is the path condition unsatisfiable?"""
        if getattr(p, "_infeasible", False):
            return True
        s = z3.Solver()
        s.set("timeout", 10000)
        tr = {}
        side = []

        def t(n):
            for m in R.topo([n]):
                if m.id in tr:
                    continue
                a = [tr[k.id] for k in m.args if isinstance(k, R.Node)]
                o = m.op
                if o == "c":
                    x = z3.RealVal(str(m.args[0]))
                elif o == "v":
                    x = z3.Real(str(m.args[0]))
                    if m.args[0] in self.positive:
                        side.append(x > 0)
                elif o == "+":
                    x = a[0] + a[1]
                elif o == "-":
                    x = a[0] - a[1]
                elif o == "*":
                    x = a[0] * a[1]
                elif o == "neg":
                    x = -a[0]
                elif o == "/":
                    x = a[0] / a[1]
                    side.append(a[1] != 0)
                else:
                    x = z3.Real(f"fn!{m.id}")
                    if o == "sqrt":
                        side.extend([x >= 0, x * x == a[0]])
                    if o == "fabs":
                        side.extend([x >= 0, x * x == a[0] * a[0]])
                    if o == "exp":
                        side.append(x > 0)
                    if o in ("sin", "cos"):
                        side.extend([x <= 1, x >= -1])
                tr[m.id] = x
            return tr[n.id]
        for pr, a, b in list(p.rpc) + self.requires:
            x, y = t(a), t(b)
            s.add({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr])
        for c in side:
            s.add(c)
        t0 = time.time()
        r = s.check()
        self.H.ctx.solver_time += time.time() - t0
        return r == z3.unsat

    def obligation(self, tag, p, ob, samples, rnd, names):
        ctx = self.H.ctx
        label = ob[0]
        name = f"{tag}.{label}"
        t0 = time.time()
        angle = ob[1] == "angle"
        if angle:
            # (label, 'angle', e, target): e is the angle target, target in the principal range
            ob = (label, ob[2], ob[3])
        elif isinstance(ob[1], str):
            return self.ineq(tag, p, ob, samples, names)
        lhs, rhs = R.lift(ob[1]), R.lift(ob[2])
        tol = ob[3] if len(ob) > 3 else self.tol
        d = R.sub(lhs, rhs)
        backend = None
        if angle and lhs.op in ("atan2", "acos") and all(self.prove_zero(p, R.fn(f, lhs) - R.fn(f, rhs), tol) for f in ("sin", "cos")):
            # same sine and cosine, both in the principal range
            ctx.discharged(name, self.backend + " (principal value)", self.where, time.time() - t0)
            return True
        # equalities on the path (x == c) are substituted
        if self.prove_zero(p, d, tol):
            ctx.discharged(name, self.backend, self.where, time.time() - t0)
            return True
        # look for a failing input
        best = None
        neval = 0
        cand = [s for s in samples + [x for x in (self.sample(rnd) for _ in range(160)) if x] if self.follows(p, s)]
        if not cand and p.rpc and self.infeasible(p):
            ctx.discharged(name + " (path infeasible)", "z3", self.where)
            return True
        if len(cand) < 3 and p.rpc:
            cand += self.points(p)
        for s in cand:
            try:
                x, y = R.evalf([lhs, rhs], s, self.ufn)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            neval += 1
            e = abs(x - y) / max(1.0, abs(x), abs(y))
            if e > 1e-7 and (best is None or e > best[0]):
                best = (e, s, x, y)
        if best is None:
            # not proved, not refuted: high-precision evaluation at random points is a bounded stand-in
            n = self.bounded_zero(p, d, tol, rnd, cand)
            if n:
                ctx.stand_in(name, f"identity evaluated to 1e-40 at {n} random points of the precondition", where=self.where)
                return True
            if n is None and self.infeasible(p):
                ctx.discharged(name + " (path infeasible)", "z3", self.where)
                return True
            if n is None:
                ctx.stand_in(name, "no sampled input reaches this path", where=self.where)
                return True
            ctx.failed(name, "identity not established", self.where,
                       replay=dict(kind="none", expr=R.show(d, 8)[:2000]), confirmed=False)
            return False
        e, s, x, y = best
        return self.report(name, p, s, x, y, names, lhs, rhs)

    def report(self, name, p, s, x, y, names, lhs=None, rhs=None):
        ctx = self.H.ctx
        confirmed, nat = False, None
        try:
            nat = self.H.call_native(self.fn, [s[n] for n in names], self.nout, self.ints)
            dag = R.evalf([o if o is not None else R.ZERO for o in p.out], s, self.ufn)
            if self.partial:
                nat, dag = zip(*[(a, b) for a, b, o in zip(nat, dag, p.out) if o is not None])
            confirmed = all(abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) for a, b in zip(nat, dag) if b == b and a == a)
        except Exception as ex:
            nat = f"native run failed: {ex}"
        ctx.failed(name, f"at {({k: round(v, 6) for k, v in s.items()})}: code gives {x!r}, contract requires {y!r}", self.where,
                   replay=dict(kind="numeric", harness=self.H.name, defs=list(self.H.defs), fn=self.fn, names=names, inputs=[s[n] for n in names], ints=list(self.ints),
                               nout=self.nout, native_outputs=nat if isinstance(nat, str) else nat[:200], observed=x, required=y,
                               expected_relation=name), confirmed=confirmed)
        return False

    def prove_zero(self, p, d, tol):
        subs = {}
        for pr, a, b in (p.rpc if p is not None else ()):
            if pr == "eq":
                if a.op == "v" and R.isc(b):
                    subs[a.args[0]] = b
                elif b.op == "v" and R.isc(a):
                    subs[b.args[0]] = a
        if subs:
            d = R.subst([d], subs)[0]
        nf = getattr(self, "_nf", None)
        if nf is None or subs:
            nf = R.NF(positive=self.positive, limit=self.nf_limit)
            if not subs:
                self._nf = nf
        self.backend = "normal-form"
        if tol:
            d = self.merge_opaque(nf, d, tol)
        try:
            if nf.zero(d, tol):
                return True
            if tol or not self.has_den(d):
                return False
        except (R.TooBig, ZeroDivisionError):
            pass
        self.backend = "field-identity-test"
        return self.pit.zero(d)

    def merge_opaque(self, nf, d, tol):
        """applications of one opaque function to arguments equal up to the tolerance are one value,
        and so are divisors equal up to the tolerance"""
        reps, v, divisors = {}, {}, []
        for n in R.topo([d]):
            if n.op in ("c", "v"):
                v[n.id] = n
                continue
            a = [v[k.id] if isinstance(k, R.Node) else k for k in n.args]
            m = R.rebuild(n.op, a)
            if m.op == "/" and not R.isc(m.args[1]):
                x = m.args[1]
                for y in divisors:
                    try:
                        if y is x or nf.zero(R.sub(x, y), tol):
                            m = R.div(m.args[0], y)
                            break
                    except (R.TooBig, ZeroDivisionError):
                        continue
                else:
                    divisors.append(x)
            if n.op == "opq":
                key = tuple(k for k in a if not isinstance(k, R.Node))
                xs = [k for k in a if isinstance(k, R.Node)]
                for ys, r in reps.setdefault(key, []):
                    try:
                        if all(nf.zero(R.sub(x, y), tol) for x, y in zip(xs, ys)):
                            m = r
                            break
                    except (R.TooBig, ZeroDivisionError):
                        continue
                else:
                    reps[key].append((xs, m))
            v[n.id] = m
        return v[d.id]

    def has_den(self, d):
        return True

    def bounded_zero(self, p, d, tol, rnd, cand=()):
        n = 0
        for k in range(60):
            s = cand[k] if k < len(cand) else self.sample(rnd)
            if s is None or not self.follows(p, s):
                continue
            try:
                v = mpeval([d], s, ufn=self.ufn)[0]
            except Exception:
                continue
            if abs(v) > max(1e-40, float(tol) * 100):
                return 0
            n += 1
            if n >= 12:
                break
        return n or None

    def ineq(self, tag, p, ob, samples, names):
        """(label, '>0' | '>=0' | '!=0', expr)"""
        ctx = self.H.ctx
        label, rel, e = ob[:3]
        name = f"{tag}.{label}"
        t0 = time.time()
        e = R.lift(e)
        nf = R.NF(positive=self.positive)
        try:
            r = nf.normal(e)
            if nf.is_positive(r) or (rel == ">=0" and not r[0]):
                ctx.discharged(name, "normal-form", self.where, time.time() - t0)
                return True
        except (R.TooBig, ZeroDivisionError):
            pass
        pr = {">0": "le", ">=0": "lt", "!=0": "eq"}[rel]

        class Q:
            rpc = list(p.rpc) + [(pr, e, R.ZERO)]
        if self.infeasible(Q):
            ctx.discharged(name, "z3", self.where, time.time() - t0)
            return True
        for s in [s for s in samples if self.follows(Q, s)] or self.points(Q):
            if self.follows(Q, s):
                return self.report(name, p, s, R.evalf([e], s, self.ufn)[0], rel, names)
        ctx.stand_in(name, f"sign evaluated at {len(samples)} random points", where=self.where)
        return True

    def self_check(self, paths, samples):
        """the executor against the compiled code, on concrete inputs"""
        names = [n for n, _, _ in self.inputs]
        for s in samples:
            ps = [p for p in paths if p.status == "ret" and self.follows(p, s)]
            if len(ps) != 1 or any(o is None for o in ps[0].out):
                continue
            nat = self.H.call_native(self.fn, [s[n] for n in names], self.nout, self.ints)
            dag = R.evalf(ps[0].out, s, self.ufn)
            bad = [(i, a, b) for i, (a, b) in enumerate(zip(nat, dag)) if not abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))]
            if bad:
                raise RuntimeError(f"engine self-check: {self.fn} output {bad[:3]} at {s}")
            self.H.ctx.engine_checks += 1

    def fallback(self, rnd, why):
        """the verifier cannot read the code: bounded stand-in, the postcondition evaluated on
        random inputs of the compiled code (derivatives of outputs by central differences)"""
        ctx = self.H.ctx
        ctx.log(f"{self.label}: outside the verifier's reach ({why}); bounded stand-in on the compiled code")
        names = [n for n, _, _ in self.inputs]
        cache = {}

        def native(xs):
            xs = tuple(xs)
            if xs not in cache:
                if len(cache) > 2000:
                    cache.clear()
                cache[xs] = self.H.call_native(self.fn, list(xs), self.nout, self.ints)
            return cache[xs]

        def ufn(n, a):
            if n.op == "native":
                return native(a)[n.args[0]]
            if n.op == "dnative":
                i, k = n.args[:2]
                h = 1e-5 * max(1.0, abs(a[k]))
                u, v = list(a), list(a)
                u[k] += h
                v[k] -= h
                return (native(u)[i] - native(v)[i]) / (u[k] - v[k])
            return self.ufn(n, a)
        I = {k: R.var(k) for k in names}
        n, neval, bad = 0, 0, None
        for _ in range(25 if self.H.ctx.tier == "quick" else 200):
            s = self.sample(rnd)
            if s is None:
                continue
            xs = [s[k] for k in names]
            nat = native(xs)
            args = [I[k] for k in names]
            O = [R._mk("native", i, *args) for i in range(self.nout)]
            if self.partial:
                # numbers of outputs are outputs: constants of this run
                O = [R.const(v) if v == v and abs(v) < 1e300 else None for v in nat]
            it = iter(self.post(I, O))
            while bad is None:
                try:
                    ob = next(it)
                except StopIteration:
                    break
                except Exception as e:
                    why += f"; postcondition not evaluable: {e}"
                    break
                try:
                    if ob[1] == "angle":
                        ob = (ob[0],) + tuple(ob[2:])
                    if isinstance(ob[1], str):
                        x, y = R.evalf([R.lift(ob[2])], s, ufn)[0], 0.0
                        neval += 1
                        if (ob[1] == "!=0" and x == 0) or (ob[1] != "!=0" and x < -1e-7):
                            bad = (ob[0], s, x, ob[1], nat)
                        continue
                    x, y = R.evalf([R.lift(ob[1]), R.lift(ob[2])], s, ufn)
                except Exception:
                    continue
                neval += 1
                if not abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)):
                    bad = (ob[0], s, x, y, nat)
            n += 1
            if bad:
                break
        if bad:
            lab, s, x, y, nat = bad
            ctx.failed(f"{self.label}.{lab}", f"at {s}: code gives {x}, contract requires {y}", self.where,
                       replay=dict(kind="numeric", harness=self.H.name, defs=list(self.H.defs), fn=self.fn, names=names, inputs=[s[k] for k in names],
                                   ints=list(self.ints), nout=self.nout, native_outputs=nat[:200], observed=x, required=y), confirmed=True)
        else:
            ctx.stand_in(self.label, f"not verifiable ({why}); {neval} clauses on {n} random inputs of the compiled code", where=self.where)
        return None
