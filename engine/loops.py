"""Loops by invariants: at the head of a loop the state the body writes is arbitrary, subject to an
invariant that holds on entry and is preserved by the body.

The variant state (phi values, memory cells, flat heap arrays, ghost terms) is found by running the
body from an arbitrary state until no further location changes.  The invariant is the conjunction of
those candidates, out of the ones offered by the contract, that hold on entry and are preserved
(Houdini).  Every candidate kept is an obligation discharged by the solver on this run."""
import z3
from . import reals as R
from .execu import Ptr, FuncPtr, UNDEF, Unsupported, Infeasible, is_sym, State, Obj, Obligations


def loops_of(fn):
    """{header index: set of block indices of the natural loop}"""
    n = len(fn.blocks)
    succ = {}
    for b in fn.blocks:
        t = b.ins[-1]
        ss = []
        if t.op in ("br", "invoke"):
            ss = [x.idx for x in t.succ]
        elif t.op == "switch":
            ss = [t.ops[k][1].idx for k in range(1, len(t.ops), 2)]
        succ[b.idx] = ss
    color, back = {}, []
    stack = [(fn.blocks[0].idx, iter(succ[fn.blocks[0].idx]))]
    color[fn.blocks[0].idx] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color.get(v, 0) == 0:
                color[v] = 1
                stack.append((v, iter(succ[v])))
                break
            if color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            stack.pop()
    pred = {}
    for u, ss in succ.items():
        for v in ss:
            pred.setdefault(v, []).append(u)
    out = {}
    for u, h in back:
        body = out.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w += pred.get(x, [])
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and same(a.off, b.off)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return False


class Cut:
    def __init__(self, fn, head, depth, body):
        self.fn, self.head, self.depth, self.body = fn, head, depth, body
        self.variants = {}
        self.inv = []


class View:
    """values of the variants in one state"""

    def __init__(self, loops, st, frame):
        self.L, self.st, self.fr = loops, st, frame

    def __getitem__(self, k):
        return self.L.read(self.st, self.fr, k)


class Loops:
    """ghosts: names in st.ghost that hold z3 terms/tuples of z3 terms and may change in loops.
    candidates(cut, entry view, head view) -> list of (name, f) with f(view) -> z3 Bool or None"""

    def __init__(self, ex, select, candidates, ghosts=(), prove=None, measures=None, fresh=None):
        self.ex, self.select, self.candidates, self.ghosts = ex, select, candidates, ghosts
        self.prove_ = prove
        self.fresh_hook = fresh
        self.measures = measures
        self.failed = []
        self.cache = {}
        self.n = 0
        self.obls = []            # (name, discharged)
        ex.loopcut = self
        self.orig = ex.goto
        ex.goto = self.goto
        self.log = []

    def info(self, fn):
        r = self.cache.get(fn.name)
        if r is None:
            r = loops_of(fn) if self.select(fn) else {}
            self.cache[fn.name] = r
        return r

    def goto(self, st, fr, bb, work=None):
        prev = fr.bb
        self.orig(st, fr, bb, work)
        stop = st.ghost.get("cuts", ())
        if stop:
            n = len(st.frames)
            keep = tuple(c for c in stop if c[0].depth < n or (c[0].depth == n and c[0].fn == fr.fn.name))
            if len(keep) != len(stop):
                st.ghost["cuts"] = stop = keep
        for c in stop[-1:]:
            if c[0] is not None and len(st.frames) == c[0].depth and fr.fn.name == c[0].fn and bb.idx not in c[0].body:
                if c[1]:
                    st.status, st.retval = "loopexit", c[0]
                    raise Infeasible()
                st.ghost["cuts"] = stop[:-1]
        lp = self.info(fr.fn).get(bb.idx)
        if lp is None:
            return
        if prev.idx in lp:
            # arrival through a back edge
            for c, _ in reversed(st.ghost.get("cuts", ())):
                if c.fn == fr.fn.name and c.head == bb.idx and c.depth == len(st.frames):
                    st.status, st.retval = "loopback", c
                    raise Infeasible()
            raise Unsupported("irreducible loop")
        self.enter(st, fr, bb, lp)

    # -- locations
    def read(self, st, fr, k):
        if k[0] == "phi":
            return st.frames[fr].vals.get(k[1])
        if k[0] == "mem":
            c = st.mem.get(k[1])
            c = c.get(k[2]) if c is not None else None
            return None if c is None or c[0] != k[3] else c[1]
        if k[0] == "heap":
            return st.heap[k[1]]
        if k[0] == "ghost":
            return st.ghost.get(k[1])
        raise KeyError(k)

    def write(self, st, fr, k, v):
        if k[0] == "phi":
            st.frames[fr].vals[k[1]] = v
        elif k[0] == "mem":
            cells = st.mem.get(k[1])
            if cells is None:
                return
            if k[1] not in st.owned:
                cells = dict(cells)
                st.mem[k[1]] = cells
                st.owned.add(k[1])
            for o in [o for o, cc in cells.items() if isinstance(o, int) and o != k[2] and o < k[2] + k[3] and o + cc[0] > k[2]]:
                del cells[o]
            cells[k[2]] = (k[3], v)
        elif k[0] == "heap":
            st.heap[k[1]] = v
        elif k[0] == "ghost":
            st.ghost[k[1]] = v

    def freshlike(self, v, nm):
        if isinstance(v, tuple):
            return tuple(self.freshlike(x, nm) for x in v)
        if isinstance(v, R.Node):
            return R.var(nm + f"_{self.n}")
        if z3.is_expr(v):
            self.n += 1
            return z3.Const(f"{nm}!{self.n}", v.sort())
        if isinstance(v, int) or v is UNDEF:
            self.n += 1
            return z3.Int(f"{nm}!{self.n}")
        if isinstance(v, Ptr):
            self.n += 1
            if v.obj is None:
                return z3.Int(f"{nm}!{self.n}")
            return Ptr(v.obj, z3.Int(f"{nm}!{self.n}"))
        raise Unsupported(f"loop variant {v}")

    def havoc(self, st, fr, variants, entry):
        syms = {}
        for k in variants:
            v = self.read(entry, fr, k)
            if v is None:
                continue
            s = self.freshlike(v, "_".join(str(x) for x in k[:1]))
            syms[k] = s
            self.write(st, fr, k, s)
        if self.fresh_hook is not None:
            self.fresh_hook(self.ex, st, syms)
        return syms

    def changed(self, a, b, fr, fn, head):
        """locations of a (head state) whose value differs in b (arrival state)"""
        out = []
        fa, fb = a.frames[fr], b.frames[fr]
        for I in fa.bb.ins:
            if I.op != "phi":
                break
            if not same(fa.vals.get(I.idx), fb.vals.get(I.idx)):
                out.append(("phi", I.idx))
        for oid, cells in b.mem.items():
            if oid not in a.mem or cells is a.mem[oid]:
                continue
            ca = a.mem[oid]
            for o, c in cells.items():
                if not isinstance(o, int):
                    continue
                if ca.get(o) is None or ca[o][0] != c[0] or not same(ca[o][1], c[1]):
                    if ca.get(o) is None and a.ghost.get(("dead", oid)):
                        continue
                    out.append(("mem", oid, o, c[0]))
        if a.heap is not None:
            for k in a.heap:
                if not a.heap[k].eq(b.heap[k]):
                    out.append(("heap", k))
        for g in set(a.ghost) & set(b.ghost):
            if (g in self.ghosts or (isinstance(g, tuple) and g and g[0] in self.ghosts)) and not same(a.ghost[g], b.ghost[g]):
                out.append(("ghost", g))
        return out

    def prove(self, st, goal):
        return self.prove_(st, goal)

    def enter(self, st, fr, bb, body):
        ex = self.ex
        depth = len(st.frames)
        cut = Cut(fr.fn.name, bb.idx, depth, body)
        fi = depth - 1
        entry = st.fork()
        # obligations met while the invariant is searched for are not those of the proof
        entry.obls = Obligations(entry, st.obls)
        variants = {}
        for _ in range(8):
            s = entry.fork()
            self.havoc(s, fi, variants, entry)
            s.ghost["cuts"] = s.ghost.get("cuts", ()) + ((cut, True),)
            head = s.fork()
            new = set()
            for f in ex.subrun(s, depth - 1):
                if f.status == "loopback" and f.retval is cut:
                    for k in self.changed(head, f, fi, fr.fn, bb):
                        if k not in variants:
                            new.add(k)
            if not new:
                break
            for k in new:
                variants[k] = True
        else:
            raise Unsupported("the variant state of a loop does not stabilise")
        cut.variants = dict(variants)
        # Houdini
        s = entry.fork()
        syms = self.havoc(s, fi, variants, entry)
        ev, hv = View(self, entry, fi), View(self, s, fi)
        cands = self.candidates(cut, ev, hv, syms)
        keep = []
        for nm, f in cands:
            g = f(ev)
            if g is not None and self.prove(entry, g):
                keep.append((nm, f))
        for _ in range(len(cands) + 2):
            h = s.fork()
            assume = [f(hv) for _, f in keep]
            h.pc += [a for a in assume if a is not None]
            h.ghost["cuts"] = h.ghost.get("cuts", ()) + ((cut, True),)
            bad = set()
            arr = []
            for fst in ex.subrun(h, depth - 1):
                if fst.status == "loopback" and fst.retval is cut:
                    if not ex.feasible(fst):
                        continue
                    av = View(self, fst, fi)
                    arr.append((fst, av))
                    for nm, f in keep:
                        if nm in bad:
                            continue
                        g = f(av)
                        if g is None or not self.prove(fst, g):
                            bad.add(nm)
            if not bad:
                break
            keep = [(nm, f) for nm, f in keep if nm not in bad]
        cut.inv = [nm for nm, _ in keep]
        where = ex.dname(fr.fn)
        for nm, _ in keep:
            self.obls.append((f"loop invariant holds on entry and is preserved: {nm}", where))
        self.log.append((where, [k for k in variants], cut.inv, [n for n, _ in cands if n not in cut.inv]))
        if self.measures is not None:
            for nm, f in self.measures(cut, ev, hv, syms):
                # a list: alternatives
                ok = any(all(self.prove(fst, g(hv, av)) for fst, av in arr) for g in (f if isinstance(f, list) else [f]))
                (self.obls if ok else self.failed).append((f"loop terminates: {nm}", where))
        # the state at the head
        self.havoc_into(st, fi, syms)
        hv = View(self, st, fi)
        for nm, f in keep:
            g = f(hv)
            if g is not None:
                st.pc.append(g)
        st.ghost["cuts"] = st.ghost.get("cuts", ()) + ((cut, False),)

    def havoc_into(self, st, fi, syms):
        for k, v in syms.items():
            self.write(st, fi, k, v)
        if self.fresh_hook is not None:
            self.fresh_hook(self.ex, st, syms)
