"""Range loops over the library's containers, cut at the iterator protocol.

A loop `for (x : container)` is executed by its contract: begin() .. end() visits every valid
element of the container exactly once (U02), in an unspecified order.  At the first comparison of
the iterator with the end, the path splits into
  empty      the container has no element: the loop is left in its initial state;
  iteration  the state the loop writes (its dirty memory, found by running the body until the set is
             stable) is arbitrary, one arbitrary element is visited, and the path stops where the
             iterator is advanced: `before` and `after` are the values of the dirty cells;
  exit       the dirty state is arbitrary and the loop is left.
The obligations of a fold are then: the value at entry, the step relation, and the result at the
exits.  Nothing else than the memory found dirty (and the ghost trace) can carry state between
iterations, because the code is compiled without register promotion (O0raw)."""
import z3
from . import reals as R
from .execu import Ptr, UNDEF, Obj, Unsupported, Infeasible, NULL, PUSHED, Obligations


class Loop:
    def __init__(self, container, elem):
        self.container, self.elem = container, elem     # elem(ex, st, loop) -> Ptr to the element
        self.key = None


class Iter:
    def __init__(self, container, kind, loop=None):
        self.container, self.kind, self.loop = container, kind, loop


class Fold:
    """containers: function(ex, st, ptr) -> factory of elements, or None if unknown"""

    def __init__(self, ex, elements, havoc=None):
        self.ex, self.elements, self.havoc = ex, elements, havoc
        self.loops = []
        self.counter = 0

    # -- iterators are 8-byte ghost tokens in the iterator object
    def token(self, st, it):
        o = self.ex.new_obj(st, "iter", 8, "ghost")
        o.info = it
        return Ptr(o, 0)

    def get(self, st, p):
        c = st.cells(p.obj).get(p.off)
        if c is None or not isinstance(c[1], Ptr) or not isinstance(getattr(c[1].obj, "info", None), Iter):
            raise Unsupported("iterator not created by begin/end")
        return c[1].obj.info

    def put(self, st, p, it):
        self.ex.store_obj(st, p.obj, p.off, 8, self.token(st, it))

    def begin(self, kind):
        def h(ex, st, a, I):
            # sret, this
            if len(a) == 2:
                self.put(st, a[0], Iter(a[1], kind))
                return None
            return self.token(st, Iter(a[0], kind))
        return h

    def first(self, st, a):
        return self.get(st, a[0])

    def compare(self, neg):
        """operator== (neg=False) / operator!= (neg=True)"""
        def h(ex, st, a, I):
            x, y = self.get(st, a[0]), self.get(st, a[1])
            if x.kind == "end":
                x, y, a = y, x, [a[1], a[0]]
            if y.kind != "end" or x.container != y.container:
                raise Unsupported("comparison of iterators that are not (current, end)")
            if x.kind == "end":
                return int(not neg)
            if x.kind == "cur":
                return int(neg)
            # loop entry
            key = (st.frames[-1].fn.name, I.idx, repr(x.container))
            n = self.counter
            self.counter += 1
            entry = st.fork()
            dirty = self.find_dirty(st, a[0], x, I, neg)
            names = {}
            # iteration
            it = st.fork()
            self.enter(it, dirty, names, a[0], x, n, key)
            ex.assign_call(it, I, int(neg))
            ex.pending.append(it)
            # exit
            out = st.fork()
            self.smash(out, dirty, names)
            out.ghost["loops"] = out.ghost.get("loops", ()) + ((n, "exit", dict(names)),)
            self.put(out, a[0], Iter(x.container, "end"))
            ex.assign_call(out, I, int(not neg))
            ex.pending.append(out)
            # empty
            st.ghost["loops"] = st.ghost.get("loops", ()) + ((n, "empty", {k: self.read(entry, k) for k in names}),)
            self.put(st, a[0], Iter(x.container, "end"))
            return int(not neg)
        return h

    def read(self, st, k):
        c = st.mem.get(k[0])
        c = c.get(k[1]) if c is not None else None
        return None if c is None else c[1]

    def enter(self, st, dirty, names, itp, x, n, key):
        self.smash(st, dirty, names)
        lp = Loop(x.container, None)
        lp.n, lp.key, lp.dirty, lp.names = n, key, dirty, names
        lp.before = {k: self.read(st, k) for k in dirty}
        lp.trace0 = len(st.trace)
        lp.elem = self.elements(self.ex, st, x.container, lp)
        self.put(st, itp, Iter(x.container, "cur", lp))
        st.ghost["cut"] = st.ghost.get("cut", ()) + (lp,)
        return lp

    def smash(self, st, dirty, names):
        for k, size in dirty.items():
            cells = st.mem.get(k[0])
            if cells is None:
                continue
            if k[0] not in st.owned:
                cells = dict(cells)
                st.mem[k[0]] = cells
                st.owned.add(k[0])
            old = cells.get(k[1])
            if k not in names:
                v = UNDEF
                if self.havoc is not None:
                    v = self.havoc(self.ex, st, k, old, size)
                if v is UNDEF and old is not None and isinstance(old[1], R.Node):
                    v = R.var(f"acc{self.counter}_{len(names)}")
                names[k] = v
            for o in [o for o, cc in cells.items() if isinstance(o, int) and o != k[1] and o < k[1] + size and o + cc[0] > k[1]]:
                del cells[o]
            cells[k[1]] = (size, names[k])

    def find_dirty(self, st, itp, x, I, neg):
        """run the body from the entry state until the set of cells it writes is stable"""
        dirty = {}
        for _ in range(8):
            s = st.fork()
            s.obls = Obligations(s, st.obls)
            entry = s.fork()
            names = {}
            lp = self.enter(s, dirty, names, itp, x, -1, None)
            self.ex.assign_call(s, I, int(neg))
            new = {}
            start = s.fork()
            for f in self.ex.subrun(s):
                if f.status != "iteration" or f.ghost["cut"][-1] is not lp:
                    continue
                for oid, cells in f.mem.items():
                    if oid not in start.mem or cells is start.mem[oid]:
                        continue
                    a, b = start.mem[oid], cells
                    for o, c in b.items():
                        if not isinstance(o, int):
                            continue
                        if a.get(o) is None or not same(a[o][1], c[1]):
                            if (oid, o) == (itp.obj.id, itp.off):
                                continue
                            new[(oid, o)] = c[0]
                    if b.get(("zero",)) != a.get(("zero",)):
                        for u, v in b.get(("zero",)) or ():
                            if (u, v) not in (a.get(("zero",)) or ()):
                                for o in range(u, v, 8):
                                    new.setdefault((oid, o), min(8, v - o))
            if all(k in dirty for k in new):
                return dirty
            dirty.update(new)
        raise Unsupported("the dirty state of the loop does not stabilise")

    def advance(self, ex, st, a, I):
        x = self.get(st, a[0])
        if x.kind != "cur":
            raise Unsupported("advancing an iterator outside its loop")
        st.status = "iteration"
        st.retval = x.loop
        raise Infeasible()

    def deref(self, ex, st, a, I):
        x = self.get(st, a[0])
        if x.kind != "cur":
            raise Unsupported("dereferencing an iterator outside its loop")
        return x.loop.elem

    def install(self, pats):
        """pats: list of (kind, predicate on the demangled name)"""
        H = {"begin": self.begin("begin"), "end": self.begin("end"), "ne": self.compare(True), "eq": self.compare(False),
             "inc": self.advance, "deref": self.deref}
        for kind, pred in pats:
            self.ex.patterns.append((pred, H[kind]))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and ((isinstance(a.off, int) and a.off == b.off) if isinstance(a.off, int) or isinstance(b.off, int) else a.off.eq(b.off))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


import re

SEGVEC = [("begin", lambda d, f: re.search(r"utilities::SegmentedVector<.*>::begin\(\)( const)?$", d) is not None),
          ("end", lambda d, f: re.search(r"utilities::SegmentedVector<.*>::end\(\)( const)?$", d) is not None),
          ("ne", lambda d, f: "mito::utilities::operator!=<mito::utilities::SegmentedVector" in d),
          ("eq", lambda d, f: "mito::utilities::operator==<mito::utilities::SegmentedVector" in d),
          ("inc", lambda d, f: re.search(r"SegmentedContainerIterator<.*>::operator\+\+\((int)?\)$", d) is not None),
          ("deref", lambda d, f: re.search(r"SegmentedContainerIterator<.*>::operator\*\(\)", d) is not None)]
STDVEC = [("begin", lambda d, f: re.search(r"^std::vector<.*>::c?begin\(\)( const)?$", d) is not None),
          ("end", lambda d, f: re.search(r"^std::vector<.*>::c?end\(\)( const)?$", d) is not None),
          ("ne", lambda d, f: "operator!=<" in d and "__normal_iterator<" in d),
          ("eq", lambda d, f: "operator==<" in d and "__normal_iterator<" in d),
          ("inc", lambda d, f: re.search(r"__normal_iterator<.*>::operator\+\+\((int)?\)$", d) is not None),
          ("deref", lambda d, f: re.search(r"__normal_iterator<.*>::operator\*\(\)", d) is not None)]
