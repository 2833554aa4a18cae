"""Exact real arithmetic over expression DAGs: the term language of floating-point values
in the verification conditions (machine doubles are read as mathematical reals).

 - Node: hash-consed expression DAG (constants are Fractions)
 - normal(): rational-function normal form, numerator / product of factored denominators,
   polynomials over the input variables and over canonical function atoms (sqrt, log, sin...)
 - diff(): symbolic derivative
 - evalf(): numeric evaluation (counterexample search)
"""
from fractions import Fraction as Fr
import math

_table = {}


class Node:
    __slots__ = ("op", "args", "id", "_nf")
    _n = 0

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        r = const(1)
        for _ in range(n):
            r = mul(r, self)
        return r


def _mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, Node) else a for a in args)
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        Node._n += 1
        n.id = Node._n
        n._nf = None
        _table[k] = n
    return n


_ratcache = {}


def rationalize(x: float) -> Fr:
    """the simplest rational that rounds to the double x (constants such as 1/3 are folded
    by the compiler before we see them)"""
    r = _ratcache.get(x)
    if r is None:
        r = Fr(x)
        if r.denominator > 4096:
            for d in (10, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6):
                c = r.limit_denominator(d)
                if float(c) == x:
                    r = c
                    break
            else:
                # decimal literal as written
                c = Fr(repr(x))
                if float(c) == x:
                    r = c
        _ratcache[x] = r
    return r


def const(c):
    if isinstance(c, float):
        c = rationalize(c)
    return _mk("c", Fr(c))


def var(name):
    return _mk("v", name)


def lift(x):
    return x if isinstance(x, Node) else const(x)


ZERO, ONE = const(0), const(1)


def isc(n):
    return n.op == "c"


def add(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return _mk("+", a, b)


def neg(a):
    if isc(a):
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", a)


def sub(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] - b.args[0])
    if b is ZERO:
        return a
    if a is ZERO:
        return neg(b)
    if a is b:
        return ZERO
    return _mk("-", a, b)


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return _mk("*", a, b)


def div(a, b):
    if isc(b) and b.args[0] != 0:
        if isc(a):
            return const(a.args[0] / b.args[0])
        if b is ONE:
            return a
        return mul(a, const(1 / b.args[0]))
    if a is ZERO:
        return ZERO
    return _mk("/", a, b)


FN = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp,
      "log": math.log, "acos": math.acos, "asin": math.asin, "atan": math.atan, "fabs": abs,
      "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
      "atan2": math.atan2, "pow": math.pow, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x)}


def fn(name, *args):
    if all(isc(a) for a in args):
        c = [a.args[0] for a in args]
        if name in ("sin", "tan", "asin", "atan", "sqrt", "sinh", "tanh") and c[0] == 0:
            return ZERO
        if name in ("cos", "exp", "cosh") and c[0] == 0:
            return ONE
        if name == "log" and c[0] == 1:
            return ZERO
        if name == "fabs":
            return const(abs(c[0]))
        if name == "sqrt" and c[0] > 0:
            n, d = math.isqrt(c[0].numerator), math.isqrt(c[0].denominator)
            if n * n == c[0].numerator and d * d == c[0].denominator:
                return const(Fr(n, d))
    if name == "pow" and isc(args[1]) and args[1].args[0].denominator == 1:
        e = int(args[1].args[0])
        if abs(e) <= 64:
            r = ONE
            for _ in range(abs(e)):
                r = mul(r, args[0])
            return r if e >= 0 else div(ONE, r)
    if name == "pow" and isc(args[1]) and args[1].args[0] == Fr(1, 2):
        return fn("sqrt", args[0])
    if name == "tan":
        return div(fn("sin", args[0]), fn("cos", args[0]))
    if name in ("sin", "cos") and args[0].op in ("acos", "asin", "atan2", "atan"):
        t = args[0]
        if t.op == "acos":
            return t.args[0] if name == "cos" else fn("sqrt", ONE - t.args[0] * t.args[0])
        if t.op == "asin":
            return t.args[0] if name == "sin" else fn("sqrt", ONE - t.args[0] * t.args[0])
        if t.op == "atan2":
            h = fn("sqrt", t.args[0] * t.args[0] + t.args[1] * t.args[1])
            return div(t.args[1] if name == "cos" else t.args[0], h)
        if t.op == "atan":
            h = fn("sqrt", ONE + t.args[0] * t.args[0])
            return div(ONE if name == "cos" else t.args[0], h)
    if name in ("sin", "cos") and args[0].op == "neg":
        t = fn(name, args[0].args[0])
        return neg(t) if name == "sin" else t
    if name in ("sin", "cos") and args[0].op in "+-" and not isc(args[0].args[0]) and not isc(args[0].args[1]):
        # addition theorems
        x, y = args[0].args
        sx, cx, sy, cy = fn("sin", x), fn("cos", x), fn("sin", y), fn("cos", y)
        if args[0].op == "-":
            sy = neg(sy)
        return sx * cy + cx * sy if name == "sin" else cx * cy - sx * sy
    if name == "hypot":
        return fn("sqrt", sum((a * a for a in args), ZERO))
    return _mk(name, *args)


def show(n, depth=6):
    if n.op == "c":
        return str(n.args[0])
    if n.op == "v":
        return str(n.args[0])
    if depth == 0:
        return "…"
    if n.op in "+-*/":
        return "(" + show(n.args[0], depth - 1) + n.op + show(n.args[1], depth - 1) + ")"
    return n.op + "(" + ",".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args) + ")"


def topo(roots):
    seen, order = set(), []
    st = [(r, False) for r in roots]
    while st:
        n, done = st.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                st.append((a, False))
    return order


def evalf(roots, env, ufn=None):
    """numeric values of the nodes roots; env: name -> float"""
    v = {}
    for n in topo(roots):
        o = n.op
        if o == "c":
            x = float(n.args[0])
        elif o == "v":
            x = env[n.args[0]]
        else:
            a = [v[k.id] for k in n.args if isinstance(k, Node)]
            if o == "+":
                x = a[0] + a[1]
            elif o == "-":
                x = a[0] - a[1]
            elif o == "*":
                x = a[0] * a[1]
            elif o == "/":
                x = a[0] / a[1]
            elif o == "neg":
                x = -a[0]
            elif o in FN:
                x = FN[o](*a)
            else:
                x = ufn(n, a)
        v[n.id] = x
    return [v[r.id] for r in roots]


def variables(roots):
    return sorted({n.args[0] for n in topo(roots) if n.op == "v"})


def subst(roots, env):
    """replace variables (name -> Node)"""
    v = {}
    for n in topo(roots):
        o = n.op
        if o == "v":
            r = env.get(n.args[0], n)
        elif o == "c":
            r = n
        else:
            a = [v[k.id] if isinstance(k, Node) else k for k in n.args]
            r = rebuild(o, a)
        v[n.id] = r
    return [v[r.id] for r in roots]


def rebuild(o, a):
    if o == "+":
        return add(*a)
    if o == "-":
        return sub(*a)
    if o == "*":
        return mul(*a)
    if o == "/":
        return div(*a)
    if o == "neg":
        return neg(*a)
    if o in FN:
        return fn(o, *a)
    return _mk(o, *a)


def diff(root, x, ufn=None):
    """d root / d x, x the name of a variable.  ufn(node, k): derivative of an uninterpreted
    function node with respect to its k-th argument"""
    d = {}
    for n in topo([root]):
        o, a = n.op, n.args
        if o == "c":
            r = ZERO
        elif o == "v":
            r = ONE if a[0] == x else ZERO
        else:
            da = [d[k.id] if isinstance(k, Node) else ZERO for k in a]
            if o == "+":
                r = da[0] + da[1]
            elif o == "-":
                r = da[0] - da[1]
            elif o == "*":
                r = da[0] * a[1] + a[0] * da[1]
            elif o == "/":
                r = da[0] / a[1] - a[0] * da[1] / (a[1] * a[1])
            elif o == "neg":
                r = -da[0]
            elif all(k is ZERO for k in da):
                r = ZERO
            elif o == "sqrt":
                r = da[0] / (2 * n)
            elif o == "cbrt":
                r = da[0] / (3 * (n * n))
            elif o == "sin":
                r = fn("cos", a[0]) * da[0]
            elif o == "cos":
                r = -fn("sin", a[0]) * da[0]
            elif o == "exp":
                r = n * da[0]
            elif o == "log":
                r = da[0] / a[0]
            elif o == "asin":
                r = da[0] / fn("sqrt", ONE - a[0] * a[0])
            elif o == "acos":
                r = -(da[0] / fn("sqrt", ONE - a[0] * a[0]))
            elif o == "atan":
                r = da[0] / (ONE + a[0] * a[0])
            elif o == "atan2":
                r = (da[0] * a[1] - a[0] * da[1]) / (a[0] * a[0] + a[1] * a[1])
            elif o == "sinh":
                r = fn("cosh", a[0]) * da[0]
            elif o == "cosh":
                r = fn("sinh", a[0]) * da[0]
            elif o == "pow":
                # x^y, y independent of x for our uses
                if da[1] is ZERO:
                    r = a[1] * fn("pow", a[0], a[1] - 1) * da[0]
                else:
                    r = n * (da[1] * fn("log", a[0]) + a[1] * da[0] / a[0])
            elif o == "native":
                # output of a compiled function (bounded stand-ins): central differences
                r = ZERO
                for k, dk in enumerate(da):
                    if dk is not ZERO:
                        r = r + _mk("dnative", a[0], k - 1, *a[1:]) * dk
            elif ufn is not None:
                r = ZERO
                for k, dk in enumerate(da):
                    if dk is not ZERO:
                        r = r + ufn(n, k) * dk
            else:
                raise ValueError("cannot differentiate " + o)
        d[n.id] = r
    return d[root.id]


# ---------------------------------------------------------------- normal forms
# polynomial: dict {monomial:int (packed exponents, 12 bits per atom) : Fraction}
W = 12
MASK = (1 << W) - 1


class TooBig(Exception):
    pass


class NF:
    """normal-form context: atoms are variables or function applications"""

    def __init__(self, positive=(), limit=400000):
        self.atoms = []          # (kind, payload)
        self.index = {}
        self.positive = set(positive)
        self.cache = {}
        self.limit = limit
        self.dens = []           # canonical denominator polynomials
        self.denkey = {}
        self.rules = {}          # atom index -> (power 2 replacement polynomial)
        self.fnatoms = {}        # fname -> list of (args nf, atom index)

    def atom(self, key, kind, payload):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.index[key] = i
        return i

    # --- polynomials
    @staticmethod
    def padd(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            x = r.get(m, 0) + s * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > self.limit * 8:
            raise TooBig()
        r = {}
        get = r.get
        for m, c in p.items():
            for n, d in q.items():
                k = m + n
                r[k] = get(k, 0) + c * d
        r = {k: v for k, v in r.items() if v}
        if len(r) > self.limit:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        for i, rep in self.rules.items():
            sh = i * W
            two = 2 << sh
            while True:
                todo = [m for m in p if ((m >> sh) & MASK) >= 2]
                if not todo:
                    break
                q = {m: c for m, c in p.items() if ((m >> sh) & MASK) < 2}
                for m in todo:
                    c = p[m]
                    mm = m - two
                    for n, d in rep.items():
                        k = mm + n
                        x = q.get(k, 0) + c * d
                        if x:
                            q[k] = x
                        else:
                            q.pop(k, None)
                p = q
        return p

    def ppow(self, p, e):
        r = {0: Fr(1)}
        while e:
            if e & 1:
                r = self.pmul(r, p)
            e >>= 1
            if e:
                p = self.pmul(p, p)
        return r

    # --- rational functions: (num, {den index: exp})
    def canon_den(self, p):
        """register the polynomial p as a product scale * prod dens; returns (scale, {i:e})"""
        if len(p) == 1:
            (m, c), = p.items()
            out = {}
            i = 0
            while m:
                e = m & MASK
                if e:
                    k = self._den({1 << (i * W): Fr(1)})
                    out[k] = out.get(k, 0) + e
                m >>= W
                i += 1
            return c, out
        # content: make leading coefficient 1, pull common monomial
        low = None
        for m in p:
            if low is None:
                low = m
            else:
                r = 0
                i = 0
                a, b = low, m
                while a and b:
                    r |= min(a & MASK, b & MASK) << (i * W)
                    a >>= W
                    b >>= W
                    i += 1
                low = r
        out = {}
        if low:
            _, out = self.canon_den({low: Fr(1)})
            p = {m - low: c for m, c in p.items()}
        lead = p[max(p)]
        p = {m: c / lead for m, c in p.items()}
        # exact division by already known denominators (cheap test: same size or division)
        for k, d in enumerate(self.dens):
            if len(d) <= 1 or len(d) > len(p):
                continue
            while True:
                q = self.pdiv(p, d)
                if q is None:
                    break
                out[k] = out.get(k, 0) + 1
                p = q
                if len(p) == 1 and 0 in p:
                    break
        if len(p) == 1:
            c, o2 = self.canon_den(p) if 0 not in p else (p[0], {})
            for k, e in o2.items():
                out[k] = out.get(k, 0) + e
            return lead * c, out
        l2 = p[max(p)]
        p = {m: c / l2 for m, c in p.items()}
        k = self._den(p)
        out[k] = out.get(k, 0) + 1
        return lead * l2, out

    def _den(self, p):
        key = tuple(sorted(p.items()))
        k = self.denkey.get(key)
        if k is None:
            k = len(self.dens)
            self.dens.append(p)
            self.denkey[key] = k
        return k

    def pdiv(self, p, d, maxsteps=3000):
        """exact polynomial division, or None (ignores the reduction rules: sound, a quotient
        q is only returned if q*d == p term by term)"""
        ld = max(d)
        cd = d[ld]
        q = {}
        r = dict(p)
        steps = 0
        while r:
            m = max(r)
            # monomial divisibility
            a, b = m, ld
            ok = True
            while b:
                if (a & MASK) < (b & MASK):
                    ok = False
                    break
                a >>= W
                b >>= W
            if not ok:
                return None
            steps += 1
            if steps > maxsteps:
                return None
            c = r[m] / cd
            mm = m - ld
            q[mm] = c
            for n, e in d.items():
                k = mm + n
                x = r.get(k, 0) - c * e
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return q

    def denpoly(self, d):
        r = {0: Fr(1)}
        for k, e in d.items():
            r = self.pmul(r, self.ppow(self.dens[k], e))
        return r

    def radd(self, a, b, s=1):
        (p, d), (q, e) = a, b
        if d == e:
            return self.simp((self.padd(p, q, s), d))
        l = dict(d)
        for k, x in e.items():
            if l.get(k, 0) < x:
                l[k] = x
        p2 = self.pmul(p, self.denpoly({k: x - d.get(k, 0) for k, x in l.items() if x > d.get(k, 0)}))
        q2 = self.pmul(q, self.denpoly({k: x - e.get(k, 0) for k, x in l.items() if x > e.get(k, 0)}))
        return self.simp((self.padd(p2, q2, s), l))

    def simp(self, r):
        p, d = r
        if not p:
            return ({}, {})
        if not d:
            return r
        d = dict(d)
        for k in list(d):
            den = self.dens[k]
            if len(den) > 1 and len(p) > 400:
                continue
            while d.get(k):
                q = self.pdiv(p, den)
                if q is None:
                    break
                p = q
                d[k] -= 1
                if not d[k]:
                    del d[k]
        return (p, d)

    def rmul(self, a, b):
        (p, d), (q, e) = a, b
        l = dict(d)
        for k, x in e.items():
            l[k] = l.get(k, 0) + x
        return self.simp((self.pmul(p, q), l))

    def rdiv(self, a, b):
        q, e = b
        if not q:
            raise ZeroDivisionError("division by an expression that is identically zero")
        c, dd = self.canon_den(q)
        num = self.pmul(a[0], self.denpoly(e))
        num = {m: x / c for m, x in num.items()}
        l = dict(a[1])
        for k, x in dd.items():
            l[k] = l.get(k, 0) + x
        return self.simp((num, l))

    def rzero(self, a):
        return not a[0]

    def same(self, a, b):
        return self.rzero(self.radd(a, b, -1))

    def is_positive(self, r):
        """syntactic positivity: every coefficient positive and every atom positive (or even)"""
        def pos(p):
            if not p:
                return False
            for m, c in p.items():
                if c < 0:
                    return False
                i = 0
                while m:
                    e = m & MASK
                    if e & 1:
                        kind, pay = self.atoms[i]
                        if kind == "v":
                            if pay not in self.positive:
                                return False
                        elif pay[0] not in ("sqrt", "exp", "fabs", "cosh") and ("fn", i) not in self.positive:
                            return False
                    m >>= W
                    i += 1
            return True
        return pos(r[0]) and all(pos(self.dens[k]) for k in r[1])

    def fnapp(self, name, args):
        """atom for a function application on normalised arguments"""
        L = self.fnatoms.setdefault(name, [])
        for a2, i in L:
            if all(self.same(x, y) for x, y in zip(args, a2)):
                return ({1 << (i * W): Fr(1)}, {})
        # parity
        if name in ("sin", "cos", "fabs") and args:
            nargs = [({m: -c for m, c in args[0][0].items()}, args[0][1])]
            for a2, i in L:
                if self.same(nargs[0], a2[0]):
                    s = Fr(-1) if name == "sin" else Fr(1)
                    return ({1 << (i * W): s}, {})
        if name == "sqrt":
            r = self.perfect_sqrt(args[0])
            if r is not None:
                return r
        if name == "fabs" and self.is_positive(args[0]):
            return args[0]
        i = self.atom((name, len(self.atoms)), "f", (name, args))
        L.append((args, i))
        if name == "sqrt" and not args[0][1]:
            self.rules[i] = args[0][0]
        elif name == "sqrt":
            # sqrt(p/q): rational square cannot be a polynomial rule; use sqrt(p*q)/q
            L.pop()
            self.atoms.pop()
            for k in [k for k, v in self.index.items() if v == i]:
                del self.index[k]
            den = self.denpoly(args[0][1])
            inner = self.fnapp("sqrt", [(self.pmul(args[0][0], den), {})])
            # valid when the denominator is positive: |q|; recorded as an assumption
            return self.rdiv(inner, (den, {}))
        if name == "sin":
            # sin^2 = 1 - cos^2
            c = self.fnapp("cos", args)
            (m, _), = c[0].items()
            self.rules[i] = {0: Fr(1), 2 * m: Fr(-1)}
        if name == "fabs":
            if not args[0][1]:
                self.rules[i] = self.pmul(args[0][0], args[0][0])
        return ({1 << (i * W): Fr(1)}, {})

    def perfect_sqrt(self, r):
        p, d = r
        def half(p):
            if len(p) != 1:
                # square of a polynomial? try a binomial-free heuristic: exact sqrt of leading term
                return self.poly_sqrt(p)
            (m, c), = p.items()
            if c <= 0:
                return None
            n, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or q * q != c.denominator:
                return None
            out = 0
            i = 0
            mm = m
            while mm:
                e = mm & MASK
                if e & 1:
                    return None
                if e and (e // 2) & 1:
                    kind, pay = self.atoms[i]
                    ok = (pay in self.positive) if kind == "v" else (pay[0] in ("sqrt", "exp", "fabs") or ("fn", i) in self.positive)
                    if not ok:
                        return None
                out |= (e // 2) << (i * W)
                mm >>= W
                i += 1
            return {out: Fr(n, q)}
        h = half(p)
        if h is None:
            return None
        den = {}
        for k, e in d.items():
            if e % 2:
                return None
            den[k] = e // 2
        return (h, den)

    def poly_sqrt(self, p):
        """q with q*q == p, when q is positive syntactically (all-positive)"""
        r = dict(p)
        m = max(r)
        c = r[m]
        if c <= 0:
            return None
        def msqrt(m):
            out, i = 0, 0
            while m:
                e = m & MASK
                if e & 1:
                    return None
                out |= (e // 2) << (i * W)
                m >>= W
                i += 1
            return out
        lm = msqrt(m)
        n, qd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if lm is None or n * n != c.numerator or qd * qd != c.denominator:
            return None
        q = {lm: Fr(n, qd)}
        for _ in range(60):
            rem = self.padd(p, self.pmul_raw(q, q), -1)
            if not rem:
                return q if self.is_positive((q, {})) else None
            m2 = max(rem)
            t = m2 - lm
            a, b = m2, lm
            while b:
                if (a & MASK) < (b & MASK):
                    return None
                a >>= W
                b >>= W
            if t in q:
                return None
            q[t] = rem[m2] / (2 * q[lm])
        return None

    @staticmethod
    def pmul_raw(p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                r[m + n] = r.get(m + n, 0) + c * d
        return {k: v for k, v in r.items() if v}

    def normal(self, root):
        cache = self.cache
        for n in topo([root]):
            if n.id in cache:
                continue
            o, a = n.op, n.args
            if o == "c":
                r = ({0: a[0]}, {}) if a[0] else ({}, {})
            elif o == "v":
                i = self.atom(("v", a[0]), "v", a[0])
                r = ({1 << (i * W): Fr(1)}, {})
            else:
                b = [cache[k.id] for k in a if isinstance(k, Node)]
                if o == "+":
                    r = self.radd(b[0], b[1])
                elif o == "-":
                    r = self.radd(b[0], b[1], -1)
                elif o == "neg":
                    r = ({m: -c for m, c in b[0][0].items()}, b[0][1])
                elif o == "*":
                    r = self.rmul(b[0], b[1])
                elif o == "/":
                    r = self.rdiv(b[0], b[1])
                else:
                    r = self.fnapp(o if o in FN else repr((o,) + tuple(k for k in a if not isinstance(k, Node))), b)
            r = (self.reduce(r[0]), r[1])
            cache[n.id] = r
        return cache[root.id]

    def zero(self, root, tol=0):
        """is root identically zero?  tol: bound on the coefficients of the numerator after
        scaling (only for expressions over rounded decimal tables)"""
        p, d = self.normal(root)
        if not p:
            return True
        if tol:
            return all(abs(c) <= tol for c in p.values())
        return False


# ---------------------------------------------------------------- identity test over a prime field
P61 = (1 << 61) - 1


class PIT:
    """Schwartz-Zippel identity test: the DAG is evaluated at random points of GF(2^61-1).
    Function applications are functions of the value of their arguments (so equal arguments give
    equal values); sqrt is the root that is itself a square (positive variables are drawn as
    squares); (sin, cos) is a random point of the unit circle with the right parity; exp, log:
    opaque.  An identity of degree d that does not hold passes one point with probability
    <= d/2^61 (four points: < 2^-150 for the degrees met here)."""
    POINTS = 4

    def __init__(self, positive=(), seed=0):
        import random
        self.rnd = random.Random(0xC0FFEE ^ seed)
        self.positive = {x for x in positive if isinstance(x, str)}
        self.exprs = [x for x in positive if isinstance(x, Node)]
        self.pts = [self.point() for _ in range(self.POINTS)]

    def point(self):
        return {"v": {}, "val": {}, "salt": self.rnd.getrandbits(64)}

    def hash(self, pt, name, vals):
        import hashlib
        h = hashlib.blake2b(repr((pt["salt"], name, vals)).encode(), digest_size=16).digest()
        return int.from_bytes(h, "little") % P61

    def value(self, pt, root):
        v = pt["val"]
        if root.id in v:
            return v[root.id]
        st = [root]
        while st:
            n = st[-1]
            if n.id in v:
                st.pop()
                continue
            todo = [a for a in n.args if isinstance(a, Node) and a.id not in v]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            v[n.id] = self.node(pt, n, v)
        return v[root.id]

    def node(self, pt, n, v):
        o = n.op
        if o == "c":
            c = n.args[0]
            return c.numerator * pow(c.denominator, -1, P61) % P61
        if o == "v":
            nm = n.args[0]
            x = pt["v"].get(nm)
            if x is None:
                x = self.hash(pt, "v", nm)
                if nm in self.positive:
                    x = x * x % P61
                pt["v"][nm] = x
            return x
        a = [v[k.id] for k in n.args if isinstance(k, Node)]
        if o == "+":
            return (a[0] + a[1]) % P61
        if o == "-":
            return (a[0] - a[1]) % P61
        if o == "*":
            return a[0] * a[1] % P61
        if o == "neg":
            return -a[0] % P61
        if o == "/":
            if a[1] == 0:
                raise ZeroDivisionError("division by zero at a random point")
            return a[0] * pow(a[1], -1, P61) % P61
        if o == "sqrt":
            # p = 3 mod 4: x^((p+1)/4), a square itself; x must be a square
            r = pow(a[0], (P61 + 1) // 4, P61)
            if r * r % P61 != a[0]:
                raise Resample()
            return r
        if o == "fabs":
            # |x| for x or -x: the one that is a square (positive expressions stay themselves
            # only if they are squares; conservative)
            r = pow(a[0], (P61 - 1) // 2, P61)
            return a[0] if r in (0, 1) else -a[0] % P61
        if o in ("sin", "cos"):
            x, s = a[0], 1
            if x == 0:
                return 0 if o == "sin" else 1
            if x > P61 - x:
                x, s = P61 - x, -1
            t = self.hash(pt, "angle", x)
            d = pow(1 + t * t, -1, P61)
            return (s * 2 * t * d if o == "sin" else (1 - t * t) * d) % P61
        if o in FN:
            return self.hash(pt, o, tuple(a))
        return self.hash(pt, o + repr(tuple(k for k in n.args if not isinstance(k, Node))), tuple(a))

    def zero(self, root):
        for i in range(len(self.pts)):
            for _ in range(6000):
                try:
                    for e in self.exprs:
                        # an expression the precondition makes positive is a square
                        if pow(self.value(self.pts[i], e), (P61 - 1) // 2, P61) != 1:
                            raise Resample()
                    if self.value(self.pts[i], root) != 0:
                        return False
                    break
                except Resample:
                    self.pts[i] = self.point()
                except ZeroDivisionError:
                    return False
            else:
                return False
        return True


class Resample(Exception):
    pass
