"""Integer terms: polynomials over shape variables (box width W, box height H), bounded variables and opaque terms.

Normal forms are unique for polynomials; // and % are resolved by mixed-radix digits where the bounds allow it.
"""
import itertools

_uid = itertools.count(1)


class Var(object):
    """An integer variable with lo <= v < hi (Polys or None: unbounded)."""
    __slots__ = ("name", "uid", "lo", "hi", "parent", "dom")

    def __init__(self, name, lo=None, hi=None, parent=None, dom=None):
        self.name, self.lo, self.hi, self.parent, self.dom = name, lo, hi, parent, dom
        self.uid = next(_uid)

    def __repr__(self):
        return "%s%s" % (self.name, "" if self.name in ("W", "H") else "'%d" % self.uid)

    def key(self):
        return (0, self.name, self.uid)


class Term(object):
    """An uninterpreted value: op applied to hashable arguments."""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))

    def key(self):
        return (1, self.op, self._h)


class Poly(object):
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = {k: c for k, c in m.items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and hash(self) == hash(o) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def single(self):
        """The atom, if this is exactly one atom."""
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if c == 1 and len(k) == 1:
                return k[0]
        return None

    def __add__(self, o):
        o = P(o)
        r = dict(self.m)
        for k, c in o.m.items():
            r[k] = r.get(k, 0) + c
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for k, c in self.m.items():
            for l, d in o.m.items():
                kl = tuple(sorted(k + l, key=lambda a: a.key())) if k and l else k + l
                r[kl] = r.get(kl, 0) + c * d
        return Poly(r)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def degree_in(self, a):
        return max([k.count(a) for k in self.m] or [0])

    def coeff(self, a):
        """(c, rest) with self = c*a + rest, for polynomials linear in a."""
        c, rest = {}, {}
        for k, v in self.m.items():
            if a in k:
                l = list(k)
                l.remove(a)
                c[tuple(l)] = v
            else:
                rest[k] = v
        return Poly(c), Poly(rest)

    def subst(self, mp, tr=None):
        """Replace atoms by Polys; tr maps opaque terms."""
        if not self.m:
            return self
        hit = False
        for k in self.m:
            for a in k:
                if a in mp or (tr is not None and isinstance(a, Term)) or (isinstance(a, Var) and a.parent and a.parent[0] in mp):
                    hit = True
                    break
        if not hit:
            return self
        r = Poly({})
        for k, c in self.m.items():
            t = Poly.const(c)
            for a in k:
                if a in mp:
                    t = t * mp[a]
                elif isinstance(a, Var) and a.parent and a.parent[0] in mp:
                    p, m, i = a.parent              # a digit of a replaced variable
                    t = t * divmod_poly(P(mp[p]), m)[i]
                elif tr is not None and isinstance(a, Term):
                    t = t * P(tr(a))
                else:
                    t = t * Poly.atom(a)
            r = r + t
        return r

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, c in sorted(self.m.items(), key=lambda x: (len(x[0]), repr(x[0]))):
            s = "*".join(map(repr, k))
            if not k:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%d*%s" % (c, s)
            out.append(s)
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]

    def canon(self):
        """Sign-normalised (for equations with 0)."""
        if not self.m:
            return self
        k = min(self.m, key=lambda k: (len(k), [a.key() for a in k], repr(k)))
        # leading = a fixed non-constant monomial if any
        ks = [k for k in self.m if k]
        if ks:
            k = min(ks, key=lambda k: (len(k), [a.key() for a in k]))
        return -self if self.m[k] < 0 else self


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    return Poly.atom(x)


ZERO, ONE = Poly.const(0), Poly.const(1)
W = Var("W", ONE, None)
H = Var("H", ONE, None)
PW, PH = Poly.atom(W), Poly.atom(H)
N = PW * PH
SHAPE = (W, H)


def _shape_nonneg(p):
    """p >= 0 for all W, H >= 1?  (sufficient test)"""
    q = p.subst({W: PW + 1, H: PH + 1})
    if any(a not in SHAPE for a in q.atoms()):
        return False
    return all(c >= 0 for c in q.m.values())


def atom_bounds(a):
    if a in SHAPE:
        return None
    if isinstance(a, Var):
        lo = bounds(a.lo)[0] if a.lo is not None else None
        hi = bounds(a.hi)[1] if a.hi is not None else None
        return (lo, None if hi is None else hi - 1)
    if isinstance(a, Term):
        if a.op == "mod" and nonneg(a.args[1] - 1):
            return (ZERO, bounds(a.args[1])[1] - 1 if bounds(a.args[1])[1] is not None else None)
        if a.op == "num":
            return (ZERO, N)
        if a.op in ("len", "count"):
            return (ZERO, None)
        if a.op == "fdiv" and nonneg(a.args[0]) and nonneg(a.args[1] - 1):
            return (ZERO, None)
    return (None, None)


_bounds = {}


def bounds(p):
    """(min, max) as polynomials in W and H only, or None where unknown."""
    p = P(p)
    r = _bounds.get(p)
    if r is None:
        if len(_bounds) > 200000:
            _bounds.clear()
        r = _bounds[p] = bounds_of(p)
    return r


def bounds_of(p):
    mn, mx = ZERO, ZERO
    for k, c in p.m.items():
        shape = tuple(a for a in k if a in SHAPE)
        rest = [a for a in k if a not in SHAPE]
        base = Poly({shape: 1})
        if not rest:
            lo = hi = base * c
        else:
            los, his = base, base
            for a in rest:
                l, h = atom_bounds(a)
                if l is None or not _shape_nonneg(l):
                    if len(rest) == 1:
                        los = None if l is None else base * l
                        his = None if h is None else base * h
                        break
                    los = his = None
                    break
                los = None if los is None else los * l
                his = None if his is None or h is None else his * h
            if c > 0:
                lo = None if los is None else los * c
                hi = None if his is None else his * c
            else:
                lo = None if his is None else his * c
                hi = None if los is None else los * c
        mn = None if mn is None or lo is None else mn + lo
        mx = None if mx is None or hi is None else mx + hi
    return mn, mx


def nonneg(p):
    mn = bounds(p)[0]
    return mn is not None and _shape_nonneg(mn)


def positive(p):
    return nonneg(p - 1)


def negative(p):
    mx = bounds(p)[1]
    return mx is not None and _shape_nonneg(-mx - 1)


_digits = {}


def divides(p, m):
    """Quotient of p by the monomial m, if exact."""
    (mk, mc), = m.m.items()
    out = {}
    for k, c in p.m.items():
        if c % mc:
            return None
        l = list(k)
        for a in mk:
            if a not in l:
                return None
            l.remove(a)
        out[tuple(l)] = c // mc
    return Poly(out)


def divmod_poly(p, m):
    """(p // m, p % m) as Polys (opaque terms if undetermined)."""
    if p.isconst() and m.isconst() and m.cval() > 0:
        q, r = divmod(p.cval(), m.cval())
        return P(q), P(r)
    if m == ONE:
        return p, ZERO
    if len(m.m) == 1 and nonneg(m - 1):
        qd, rd = {}, {}
        (mk, mc), = m.m.items()
        for k, c in p.m.items():
            q = divides(Poly({k: c}), m)
            if q is not None:
                qd[tuple(q.m)[0]] = qd.get(tuple(q.m)[0], 0) + list(q.m.values())[0]
            else:
                rd[k] = c
        Q, R = Poly(qd), Poly(rd)
        for k in (0, 1, -1):
            if nonneg(R + k * m) and negative(R + k * m - m):
                return Q - k, R + k * m
        v = R.single()
        if isinstance(v, Var) and v.parent is None and v.lo == ZERO and v.hi is not None:
            n = divides(v.hi, m)
            if n is not None:
                d = digits(v, m, n)
                return Q + Poly.atom(d[0]), Poly.atom(d[1])
    return Poly.atom(Term("fdiv", p, m)), Poly.atom(Term("mod", p, m))


def digits(v, m, n):
    key = (v, m)
    if key not in _digits:
        _digits[key] = (Var(v.name + "/", ZERO, n, parent=(v, m, 0)), Var(v.name + "%", ZERO, m, parent=(v, m, 1)))
    return _digits[key]


def split_eq(p):
    """Equations (list of Polys, all to be 0) equivalent to p == 0, split by mixed radix."""
    work, out = [p], []
    while work:
        q = work.pop()
        done = False
        for m in (N, PH, PW):
            (mk, _), = m.m.items()
            a, b = {}, {}
            for k, c in q.m.items():
                d = divides(Poly({k: c}), m)
                if d is not None:
                    kk = tuple(d.m)[0]
                    a[kk] = a.get(kk, 0) + d.m[kk]
                else:
                    b[k] = c
            A, B = Poly(a), Poly(b)
            if not A.m:
                continue
            if not B.m:
                work.append(A)
                done = True
                break
            if negative(B - m) and negative(-B - m):
                work.append(A)
                out.append(B)
                done = True
                break
        if not done:
            out.append(q)
    res = []
    for e in out:
        e = e.canon()
        if e not in res:
            res.append(e)
    return res
