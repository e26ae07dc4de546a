"""Formulas over integer terms and symbolic collections, and a decision procedure for them (no solver: normal forms,
mixed-radix splitting of equations, elimination of bound variables by their defining equation)."""
from .poly import (H, N, ONE, P, PH, PW, Poly, Term, Var, W, ZERO, bounds, divides, negative, nonneg, split_eq)

T, F = ("T",), ("F",)


class K(object):
    """A constant that is not an int or bool."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


class Tup(object):
    """A tuple of known length; cls names the namedtuple class."""
    __slots__ = ("items", "cls", "_h")

    def __init__(self, items, cls=None):
        self.items, self.cls = tuple(items), cls
        self._h = hash(("Tup", self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class StrV(object):
    """A string made of constant text and str() of terms."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        return hash(("S", self.parts))

    def __repr__(self):
        return "str" + repr(self.parts)


class CollV(object):
    """An immutable snapshot of a collection: a sequence of operations."""
    __slots__ = ("kind", "ops", "_h")

    def __init__(self, kind, ops):
        self.kind, self.ops = kind, tuple(ops)
        self._h = hash(("C", kind, self.ops))

    def __eq__(self, o):
        return isinstance(o, CollV) and self._h == o._h and self.kind == o.kind and self.ops == o.ops

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%s{%s}" % (self.kind, "; ".join(map(show_op, self.ops)))


def show_op(o):
    if o[0] in "+-":
        return "%s%r%s%s" % (o[0], o[3], (" for " + ",".join(map(repr, o[1]))) if o[1] else "",
                             "" if o[2] == T else " if " + show(o[2]))
    return repr(o)


def show(f):
    if isinstance(f, tuple) and f and isinstance(f[0], str):
        h = f[0]
        if h in "TF":
            return h
        if h == "not":
            return "not(%s)" % show(f[1])
        if h in ("and", "or"):
            return "(" + (" %s " % h).join(show(x) for x in f[1]) + ")"
        if h == "eq":
            return "%r=0" % f[1]
        if h == "lt":
            return "%r<0" % f[1]
        if h == "ex":
            return "exists %s: %s" % (",".join(map(repr, f[1])), show(f[2]))
        return "%s(%s)" % (h, ", ".join(show(x) if isinstance(x, tuple) else repr(x) for x in f[1:]))
    return repr(f)


def isf(v):
    return isinstance(v, tuple)


def fnot(f):
    if f == T:
        return F
    if f == F:
        return T
    if f[0] == "not":
        return f[1]
    if f[0] == "lt":                       # not p<0  <=>  -p-1 < 0
        return mklt(-f[1] - 1)
    if f[0] == "and":
        return f_or(*[fnot(x) for x in f[1]])
    if f[0] == "or":
        return f_and(*[fnot(x) for x in f[1]])
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f == F:
            return F
        if f == T:
            continue
        for g in (f[1] if f[0] == "and" else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if fnot(g) in out:
            return F
    if not out:
        return T
    return out[0] if len(out) == 1 else ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f == T:
            return T
        if f == F:
            continue
        for g in (f[1] if f[0] == "or" else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if fnot(g) in out:
            return T
    if len(out) > 1:
        out = [g for g in out if not (g[0] == "and" and any(x in out for x in g[1]))]
    if not out:
        return F
    return out[0] if len(out) == 1 else ("or", tuple(out))


def conj(f):
    return list(f[1]) if f[0] == "and" else ([] if f == T else [f])


def mklt(p):
    p = P(p)
    if p.isconst():
        return T if p.cval() < 0 else F
    if negative(p):
        return T
    if nonneg(p):
        return F
    return ("lt", p)


def mkeqp(p):
    p = P(p)
    if p.isconst():
        return T if p.cval() == 0 else F
    if negative(p) or negative(-p):
        return F
    return ("eq", p.canon())


def opaque_value(v):
    """A value of unknown structure?"""
    return isinstance(v, Term) or (isinstance(v, Poly) and v.single() is not None)


def item(v, i):
    if isinstance(v, Tup):
        return v.items[i]
    a = v.single() if isinstance(v, Poly) else v
    return P(Term("item", a, i))


def mkeq(a, b):
    if a == b:
        return T
    if isf(a) and isf(b):
        if a in (T, F) and b in (T, F):
            return T if a == b else F
        return f_or(f_and(a, b), f_and(fnot(a), fnot(b)))
    if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
        return mkeqp(P(a) - P(b))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return F
        return f_and(*[mkeq(x, y) for x, y in zip(a.items, b.items)])
    for x, y in ((a, b), (b, a)):
        if getattr(x, "ident", False) and (getattr(y, "ident", False) or isinstance(y, (K, Tup, StrV, CollV)) or isf(y)):
            return F
        if isinstance(x, Tup):
            if opaque_value(y):
                return f_and(*[mkeq(x.items[i], item(y, i)) for i in range(len(x.items))])
            if isinstance(y, (K, StrV)) or isf(y) or isinstance(y, Poly):
                return F
        if isinstance(x, K):
            if isinstance(y, K):
                return F
            if isinstance(y, Tup) or isf(y) or isinstance(y, CollV):
                return F
            if isinstance(y, Poly) and definitely_int(y):
                return F
    for x, y in ((a, b), (b, a)):
        if isinstance(x, K) and isinstance(x.v, str) and isinstance(y, StrV):
            f = text_eq(x.v, y)
            if f is not None:
                return f
    if isinstance(a, Poly) and isf(b) and b in (T, F):
        return mkeqp(a - (1 if b == T else 0))
    if isinstance(b, Poly) and isf(a) and a in (T, F):
        return mkeqp(b - (1 if a == T else 0))
    if all(isinstance(x, CollV) and x.kind in ("set", "frozenset") and len(x.ops) <= 3 and
           all(o[0] == "+" and not o[1] and o[2] == T for o in x.ops) for x in (a, b)):
        return f_and(*[mkin(o[3], d) for c, d in ((a, b), (b, a)) for o in c.ops])
    x, y = sorted((a, b), key=repr)
    return ("eqv", x, y)


def pattern(parts):
    """A regular expression all texts of the parts match."""
    import re
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += re.escape(p)
        elif isinstance(p, Term) and p.op == "str" and isinstance(p.args[0], Poly):
            out += ("" if nonneg(p.args[0]) else "-?") + "(0|[1-9][0-9]*)"
        elif isinstance(p, Term) and p.op == "char" and isinstance(p.args[0], Term):
            q = pattern((p.args[0],))
            out += "[0-9]" if q == "(0|[1-9][0-9]*)" else class_of(p.args[0], "")
        else:
            out += class_of(p, "*")
    return out


def class_of(p, many):
    import re
    if isinstance(p, Term) and p.op == "text" and len(p.args) == 2 and p.args[1]:
        return "[^%s]%s" % ("".join(re.escape(c) for c in p.args[1]), many)
    return "(.|\n)" + many


def text_eq(k, v):
    """Is the text equal to the constant?  None: not known."""
    import re
    if not re.fullmatch(pattern(v.parts), k):
        return F
    if len(v.parts) == 1 and isinstance(v.parts[0], Term) and v.parts[0].op == "str" and isinstance(v.parts[0].args[0], Poly):
        return mkeqp(v.parts[0].args[0] - int(k))
    return None


def definitely_int(p):
    s = p.single()
    if s is None:
        return True
    if isinstance(s, Var):
        return s.dom is None
    return s.op in ("num", "len", "count", "fdiv", "mod", "chosen")


# ---------------------------------------------------------------- substitution
class Sub(object):
    def __init__(self, mp):
        self.mp = mp
        self.memo = {}

    def __call__(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, (K, int, str)) or v is None:
            return v
        key = v if not isinstance(v, tuple) else ("t", v)
        try:
            r = self.memo.get(key)
        except TypeError:
            return v
        if r is None:
            r = self.memo[key] = self.go(v)
        return r

    def poly(self, p):
        return p.subst(self.mp, self)

    def go(self, v):
        if isinstance(v, tuple):
            if not v:
                return v
            h = v[0]
            if h == "and":
                return f_and(*[self(x) for x in v[1]])
            if h == "or":
                return f_or(*[self(x) for x in v[1]])
            if h == "not":
                return fnot(self(v[1]))
            if h == "eq":
                return mkeqp(self(v[1]))
            if h == "lt":
                return mklt(self(v[1]))
            if h == "eqv":
                return mkeq(self(v[1]), self(v[2]))
            if h == "ex":
                bs, s = self.binders(v[1])
                return mkex(bs, s(v[2]))
            return tuple(self(x) if not isinstance(x, str) else x for x in v)
        if isinstance(v, Tup):
            return Tup([self(x) for x in v.items], v.cls)
        if isinstance(v, Term):
            args = [self(x) for x in v.args]
            if v.op == "len" and isinstance(args[0], CollV):
                return coll_len(args[0])
            if v.op == "ite":
                return mkite(*args)
            if v.op in ("fdiv", "mod"):
                from .poly import divmod_poly
                q, r = divmod_poly(args[0], args[1])
                return q if v.op == "fdiv" else r
            if v.op == "item" and isinstance(args[0], Tup):
                return args[0].items[args[1]]
            if v.op == "item" and isinstance(args[0], Poly):
                args[0] = args[0].single() or args[0]
            t = Term(v.op, *args)
            return t
        if isinstance(v, CollV):
            return CollV(v.kind, [self.op(o) for o in v.ops])
        if isinstance(v, StrV):
            return StrV([self(p) if not isinstance(p, str) else p for p in v.parts])
        if isinstance(v, Var):
            if v in self.mp:
                return self.mp[v]
            return v
        if hasattr(v, "subst"):
            return v.subst(self)
        return v

    def extend(self, b, p):
        return Sub({**self.mp, b: p})

    def op(self, o):
        if len(o) == 4 and o[0] in ("+", "-", "-1") and o[1]:
            bs, s = self.binders(o[1])
            return (o[0], bs, s(o[2]), s(o[3]))
        return self(o)

    def binders(self, bs):
        """Bound variables, renewed where what they range over is substituted, and the substitution inside their scope."""
        out = []
        s = self
        for b in bs:
            if b in s.mp:
                a = s.mp[b].single()
                out.append(a if isinstance(a, Var) else b)
                continue
            if b.dom is not None or b.lo is not None or b.hi is not None:
                dom = tuple(s(d) if not isinstance(d, str) else d for d in b.dom) if b.dom is not None else None
                lo = s(b.lo) if b.lo is not None else None
                hi = s(b.hi) if b.hi is not None else None
                if dom != b.dom or lo != b.lo or hi != b.hi:
                    n = Var(b.name, lo, hi, dom=dom)
                    s = s.extend(b, Poly.atom(n))
                    out.append(n)
                    continue
            out.append(b)
        return tuple(out), s


def subst(v, mp):
    return Sub(mp)(v) if mp else v


def refresh(binders, *vals):
    """Rename bound variables apart."""
    mp = {}
    new = []
    for b in binders:
        dom = b.dom
        lo = subst(b.lo, mp) if b.lo is not None else None
        hi = subst(b.hi, mp) if b.hi is not None else None
        if dom is not None:
            dom = tuple(subst(d, mp) if not isinstance(d, str) else d for d in dom)
        n = Var(b.name, lo, hi, dom=dom)
        mp[b] = Poly.atom(n)
        new.append(n)
    s = Sub(mp)
    return (tuple(new),) + tuple(s(v) for v in vals)


def free_vars(v, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, (str, int, K)) or v is None:
        return acc
    if id(v) in seen:
        return acc
    seen.add(id(v))
    if isinstance(v, Var):
        acc.add(v)
        if v.parent:
            acc.add(v.parent[0])
        if v.dom:
            free_vars(v.dom, acc, seen)
        for b in (v.lo, v.hi):
            if b is not None:
                free_vars(b, acc, seen)
    elif isinstance(v, Poly):
        for a in v.atoms():
            free_vars(a, acc, seen)
    elif isinstance(v, Term):
        for a in v.args:
            free_vars(a, acc, seen)
    elif isinstance(v, Tup):
        for a in v.items:
            free_vars(a, acc, seen)
    elif isinstance(v, (tuple, list)):
        for a in v:
            free_vars(a, acc, seen)
    elif isinstance(v, CollV):
        free_vars(v.ops, acc, seen)
    elif isinstance(v, StrV):
        free_vars(v.parts, acc, seen)
    elif hasattr(v, "parts_"):
        for a in v.parts_():
            free_vars(a, acc, seen)
    return acc


def mentions(v, pred):
    """Does any Term/Var inside v satisfy pred?"""
    seen = set()

    def go(v):
        if isinstance(v, (str, int, K)) or v is None or id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, (Var, Term)) and pred(v):
            return True
        if isinstance(v, Var):
            return any(go(x) for x in (v.dom or ())) or go(v.lo) or go(v.hi)
        if isinstance(v, Poly):
            return any(go(a) for a in v.atoms())
        if isinstance(v, Term):
            return any(go(a) for a in v.args)
        if isinstance(v, Tup):
            return any(go(a) for a in v.items)
        if isinstance(v, (tuple, list)):
            return any(go(a) for a in v)
        if isinstance(v, CollV):
            return go(v.ops)
        if isinstance(v, StrV):
            return go(v.parts)
        if hasattr(v, "parts_"):
            return any(go(a) for a in v.parts_())
        return False
    return go(v)


# ---------------------------------------------------------------- collections as formulas
def mkex(binders, f):
    if f == F:
        return F
    fv = free_vars(f)
    # drop binders over surely non-empty ranges that are not used
    bs = []
    for b in binders:
        if b not in fv and b.dom is None and b.lo is not None and b.hi is not None and nonneg(b.hi - b.lo - 1):
            continue
        bs.append(b)
    if not bs:
        return f
    if f[0] == "or":
        return f_or(*[mkex(tuple(bs), g) for g in f[1]])
    if f == T and len(bs) == 1 and bs[0].dom is None and bs[0].lo is not None and bs[0].hi is not None:
        return mklt(bs[0].lo - bs[0].hi)
    # pull out parts that do not mention the binders
    if f[0] == "and":
        sb = set(bs)
        out = [g for g in f[1] if not (free_vars(g) & sb)]
        if out:
            rest = [g for g in f[1] if g not in out]
            return f_and(*(out + [mkex(tuple(bs), f_and(*rest))]))
    return ("ex", tuple(bs), f)


def mkin(x, c):
    """Membership of x in a collection value."""
    if isinstance(c, Tup):
        return f_or(*[mkeq(x, y) for y in c.items])
    if isinstance(c, CollV):
        res = F
        for o in c.ops:
            if o[0] == "+":
                b, cond, e = refresh(o[1], o[2], o[3])
                res = f_or(res, mkex(b, f_and(cond, mkeq(e, x))))
            elif o[0] == "-":
                b, cond, e = refresh(o[1], o[2], o[3])
                res = f_and(res, fnot(mkex(b, f_and(cond, mkeq(e, x)))))
            elif o[0] == "-1":
                # one occurrence: exact for collections without duplicates
                res = f_and(res, fnot(f_and(o[2], mkeq(o[3], x))))
            elif o[0] == "all":
                res = f_or(res, ("in", x, o[1]))
            else:
                return ("in", x, c)
        return res
    return ("in", x, c)


def split_first(f):
    """(f without its top-level first-occurrence guards, were there any?)"""
    cs = conj(f)
    rest = [g for g in cs if g[0] != "first"]
    return (f_and(*rest), True) if len(rest) != len(cs) else (f, False)


def nonempty(c):
    if isinstance(c, Tup):
        return T if c.items else F
    if isinstance(c, CollV):
        if all(o[0] in "+" for o in c.ops):
            return f_or(*[mkex(*refresh(o[1], o[2])) for o in c.ops])
        if all(o[0] in ("+", "all") for o in c.ops):
            return f_or(*[mkex(*refresh(o[1], o[2])) if o[0] == "+" else nonempty(o[1]) for o in c.ops])
        fl = flat(c)
        if fl is not None:
            return f_or(*[mkex(*refresh(b, cond)) for b, cond, e in fl])
        return ("truth", c)
    return ("truth", c)


def flat(c):
    """Families [(binders, cond, elem)] whose elements are exactly those of the collection (as a set); None if unknown."""
    if isinstance(c, Tup):
        return [((), T, x) for x in c.items]
    fams = []
    for o in c.ops:
        if o[0] == "+":
            fams.append((o[1], o[2], o[3]))
        elif o[0] == "-":
            new = []
            for b, cond, e in fams:
                rb, rc, re = refresh(o[1], o[2], o[3])
                new.append((b, f_and(cond, fnot(mkex(rb, f_and(rc, mkeq(re, e))))), e))
            fams = new
        elif o[0] == "-1":
            new, done = [], False
            d = Decider()
            for b, cond, e in fams:
                if done:
                    new.append((b, cond, e))
                    continue
                n = d.count(b, f_and(cond, mkeq(e, o[3])))
                if n == 1:
                    new.append((b, f_and(cond, fnot(mkeq(e, o[3]))), e))
                    done = True
                elif n == 0:
                    new.append((b, cond, e))
                else:
                    return None
            if not done:
                return None
            fams = new
        elif o[0] == "all":
            v = Var("x", dom=("elem", o[1]))
            fams.append(((v,), T, P(v)))
        else:
            return None
    return [f for f in fams if f[1] != F]


def coll_len(c):
    """Length of a collection as Poly."""
    if isinstance(c, Tup):
        return P(len(c.items))
    if isinstance(c, CollV) and c.kind in ("list", "tuple", "gen", "range", "iter") or \
            (isinstance(c, CollV) and c.kind in ("set", "frozenset") and len(c.ops) <= 1):
        n = ZERO
        ok = True
        for o in c.ops:
            if o[0] == "+" and o[2] == T and all(b.dom is None and b.lo is not None and b.hi is not None for b in o[1]) and (
                    c.kind not in ("set", "frozenset") or len(o[1]) <= 1 and (not o[1] or o[3] == P(o[1][0]))):
                k = ONE
                for b in o[1]:
                    k = k * (b.hi - b.lo)
                n = n + k
            elif o[0] == "-1":
                n = n - 1
            else:
                ok = False
        if ok:
            return n
    if isinstance(c, CollV) and c.kind in ("set", "frozenset") and all(
            o[0] in "+-" and not o[1] and o[2] == T and constant(o[3]) for o in c.ops):
        cur = []
        for o in c.ops:
            if o[0] == "+" and o[3] not in cur:
                cur.append(o[3])
            elif o[0] == "-" and o[3] in cur:
                cur.remove(o[3])
        return P(len(cur))
    return P(Term("len", canon_coll(c)))


def constant(x):
    return isinstance(x, K) or isinstance(x, Poly) and x.isconst() or isinstance(x, Tup) and all(constant(y) for y in x.items)


def canon_coll(c):
    """Set/list conversions of one opaque collection share their length only if it has no duplicates: keep the kind."""
    if isinstance(c, CollV) and len(c.ops) == 1 and c.ops[0][0] == "all" and isinstance(c.ops[0][1], Term) and \
            c.ops[0][1].op in ("cand", "candv"):
        return c.ops[0][1]
    return c


def mkite(f, a, b):
    if f == T:
        return a
    if f == F:
        return b
    if a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        if f[0] == "not" and f[1][0] == "eq" and f[1][1] in (a - b, b - a):      # a if a != b else b
            return a
        if f[0] == "eq" and f[1] in (a - b, b - a):
            return b
    if isinstance(a, Poly) or isinstance(b, Poly):
        return P(Term("ite", f, a, b))
    return Term("ite", f, a, b)


# ---------------------------------------------------------------- deciding
def congruent(e):
    """(t1, t2) if e is the difference of two applications of the same function."""
    if len(e.m) != 2:
        return None
    ks = list(e.m)
    if any(len(k) != 1 or not isinstance(k[0], Term) for k in ks) or e.m[ks[0]] != -e.m[ks[1]] or abs(e.m[ks[0]]) != 1:
        return None
    a, b = ks[0][0], ks[1][0]
    if a.op != b.op or len(a.args) != len(b.args):
        return None
    return (a, b) if all(isinstance(x, Poly) and isinstance(y, Poly) or x == y for x, y in zip(a.args, b.args)) else None


def eliminate(ps, rows=()):
    """Triangular form of linear equations over the monomials: [(leading monomial or None, polynomial)]."""
    rows = list(rows)
    for p in ps:
        q = reduce_(p, rows)
        if q.m:
            ks = [k for k in q.m if k]
            rows.append((min(ks, key=lambda k: (len(k), [a.key() for a in k])) if ks else None, q))
    return rows


def reduce_(p, rows):
    for k, q in rows:
        if k is None:
            continue
        c = p.m.get(k)
        if c:
            d = q.m[k]
            if d < 0:
                c, d = -c, -d
            p = d * p - c * q
    return p


class Decider(object):
    """Three-valued evaluation under facts: neq (polynomials known != 0) and atoms (formula -> bool)."""

    def __init__(self, neq=(), atoms=None, pc=()):
        self.neq = set(p.canon() for p in neq)
        self.atoms = dict(atoms or {})
        for f in pc:
            self.assume(f)
        self.units()
        self.depth = 0
        self.known = None

    def assume(self, f, val=True):
        if f[0] == "not":
            return self.assume(f[1], not val)
        if f[0] == "and" and val or f[0] == "or" and not val:
            for g in f[1]:
                self.assume(g, val)
            return
        self.atoms[f] = val
        if f[0] == "eq" and not val:
            self.neq.add(f[1].canon())
        if f[0] == "eq" and val:
            for e in split_eq(f[1]):
                self.atoms[("eq", e)] = True
        if f[0] in ("eq", "lt"):
            self.length(f[0], f[1], val)

    def length(self, h, p, val):
        """What a known length says about emptiness."""
        for k, c in p.m.items():
            if len(k) == 1 and isinstance(k[0], Term) and k[0].op == "len" and len(p.m) <= 2 and c in (1, -1):
                rest = p - Poly({k: c})
                if not rest.isconst():
                    continue
                n = rest.cval() * -c                    # len is compared with n
                some = None
                if h == "eq" and val:
                    some = n > 0
                elif h == "lt":
                    # c = 1: len < n; c = -1: len > n
                    if (c == 1) != val and (n if c == -1 else n - 1) >= 0:
                        some = True
                    elif c == 1 and val and n == 1 or c == -1 and not val and n == 0:
                        some = False
                if some is not None:
                    f = nonempty(k[0].args[0])
                    if f[0] not in ("truth", "T", "F"):
                        self.atoms[f] = some

    def units(self):
        """Disjunctions of which all parts but one are known to be false."""
        todo = [f for f, v in self.atoms.items() if f[0] == "or" and v is True]
        while todo:
            left = []
            for f in todo:
                open_ = [g for g in f[1] if self.known_literal(g) is not False]
                if len(open_) == 1:
                    self.assume(open_[0])
                else:
                    left.append(f)
            if len(left) == len(todo):
                return
            todo = left

    def known_literal(self, g):
        if g[0] == "not":
            r = self.known_literal(g[1])
            return None if r is None else not r
        if g[0] == "and":
            return False if any(self.known_literal(x) is False for x in g[1]) else None
        return self.atoms.get(g)

    def decide(self, f):
        if f == T:
            return True
        if f == F:
            return False
        if f in self.atoms:
            return self.atoms[f]
        h = f[0]
        if h == "not":
            r = self.decide(f[1])
            return None if r is None else not r
        if h == "and":
            res = True
            for g in f[1]:
                r = self.decide(g)
                if r is False:
                    return False
                if r is None:
                    res = None
            return self.linear(f[1]) if res is None else res
        if h == "or":
            res = False
            for g in f[1]:
                r = self.decide(g)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None and any(g[0] == "or" and v is True and all(x in f[1] for x in g[1]) for g, v in self.atoms.items()):
                return True
            if res is None and all(g[0] == "not" for g in f[1]):
                r = self.linear([g[1] for g in f[1]])
                return None if r is None else not r
            return res
        if h == "eq":
            res = True
            for e in split_eq(f[1]):
                r = self.eq0(e)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None:
                r = self.ites(f)
                if r is not None:
                    return r
                return self.linear((f,))
            return res
        if h == "lt":
            if negative(f[1]):
                return True
            if nonneg(f[1]):
                return False
            g = ("lt", -f[1] - 1)
            if g in self.atoms:
                return not self.atoms[g]
            r = self.len0(f[1])
            if r is None:
                r = self.ites(f)
            if r is None:
                r = self.from_facts(f[1])
            return r
        if h == "ex":
            r = self.exists(f[1], f[2])
            return self.renamed(f) if r is None else r
        if h == "in":
            r = mkin(f[1], f[2])
            if r != f:
                return self.decide(r)
            for g, v in self.atoms.items():
                if g[0] == "in" and g[2] == f[2] and v in (True, False):
                    r = self.decide(mkeq(g[1], f[1]))
                    if r is True:
                        return v
        if h == "truth":
            r = nonempty(f[1])
            if r != f:
                return self.decide(r)
        return None

    def linear(self, fs):
        """A conjunction of equations under the known equations and inequations, by elimination."""
        if not all(g[0] == "eq" for g in fs):
            return None
        if self.known is None:
            eqs = [g[1] for g, v in self.atoms.items() if g[0] == "eq" and v is True]
            no = [[g[1]] for g, v in self.atoms.items() if g[0] == "eq" and v is False]
            no += [[x[1][1] for x in g[1]] for g, v in self.atoms.items()
                   if g[0] == "or" and v is True and all(x[0] == "not" and x[1][0] == "eq" for x in g[1])]
            self.known = (eqs, no)
        eqs, no = self.known
        if not eqs and not any(len(c) > 1 for c in no):
            return None
        rows = eliminate(eqs)
        es = [g[1] for g in fs]
        if all(not reduce_(e, rows).m for e in es):
            return True
        rows = eliminate(es, rows)
        if any(q.isconst() for _k, q in rows):
            return False
        for c in no:
            if all(not reduce_(e, rows).m for e in c):
                return False
        return None

    def renamed(self, f):
        """Value of a known formula that differs only in the names of its bound variables."""
        for g, v in self.atoms.items():
            if g[0] == "ex" and len(g[1]) == len(f[1]) and all(
                    a.lo == b.lo and a.hi == b.hi and a.dom == b.dom and a.parent == b.parent for a, b in zip(f[1], g[1])):
                if subst(g[2], {b: P(a) for a, b in zip(f[1], g[1])}) == f[2]:
                    return v
        return None

    def ites(self, f):
        """Split on an if-then-else term inside the atom."""
        t = find_ite(f)
        if t is None:
            return None
        c = self.decide(t.args[0])
        if c is None:
            a = self.decide(subst_term(f, t, t.args[1]))
            b = self.decide(subst_term(f, t, t.args[2]))
            return a if a == b else None
        return self.decide(subst_term(f, t, t.args[1] if c else t.args[2]))

    def len0(self, p):
        """-len(c) + k < 0 for k = 0: is the collection non-empty?"""
        if len(p.m) in (1, 2):
            for k, c in p.m.items():
                if len(k) == 1 and isinstance(k[0], Term) and k[0].op == "len":
                    rest = p - Poly({k: c})
                    if rest.isconst():
                        if c == -1 and rest.cval() == 0:
                            return self.decide(nonempty(k[0].args[0])) if nonempty(k[0].args[0]) != ("truth", k[0].args[0]) else None
                        if c == 1 and rest.cval() == -1:
                            r = self.decide(nonempty(k[0].args[0])) if nonempty(k[0].args[0]) != ("truth", k[0].args[0]) else None
                            return None if r is None else not r
        return None

    def from_facts(self, p):
        """p < 0 from one known inequality or equation."""
        for g, v in self.atoms.items():
            if g[0] == "lt":
                q = g[1] if v else -g[1] - 1        # q < 0 known
                if nonneg(q - p):                   # p <= q < 0
                    return True
                if nonneg(p + q + 1):               # p >= -q-1 >= 0 ... since q <= -1: -q-1 >= 0
                    return False
            elif g[0] == "eq" and v:
                for q in (g[1], -g[1]):
                    if negative(p - q):
                        return True
                    if nonneg(p - q):
                        return False
        return None

    def eq0(self, e):
        if e.isconst():
            return e.cval() == 0
        e = e.canon()
        if e in self.neq:
            return False
        g = ("eq", e)
        if g in self.atoms:
            return self.atoms[g]
        if negative(e) or negative(-e):
            return False
        t = congruent(e)
        if t is not None and t[0].op != "ite" and all(self.decide(mkeq(x, y)) is True for x, y in zip(t[0].args, t[1].args)):
            return True
        for q in self.neq:                          # e = k*q + multiple? only direct hits
            if e == q or e == -q:
                return False
        for g, v in self.atoms.items():
            if g[0] == "eq" and v:
                for q in (g[1], -g[1]):
                    d = e - q
                    if d.isconst():
                        return d.cval() == 0
                    if d.canon() in self.neq:
                        return False
            if g[0] == "lt" and v:
                # g[1] < 0 known
                if nonneg(e - g[1] - 0) and False:
                    return None
                for s in (e, -e):
                    if nonneg(g[1] - s):             # s <= g < 0
                        return False
        return None

    # -- bound variables
    def expand(self, binders, f):
        """Replace variables whose // and % digits occur by those digits."""
        split = []
        for _ in range(8):
            fv = vars_of(f)
            par = [v for v in fv if v.parent and (v.parent[0] in fv or True)]
            todo = {}
            for v in par:
                p, m, _i = v.parent
                todo.setdefault(p, set()).add(m)
            todo = {p: ms for p, ms in todo.items() if p in fv or p in binders}
            if not todo:
                return binders, f, split
            mp, nb = {}, []
            changed = False
            from .poly import digits
            for p, ms in todo.items():
                if len(ms) > 1:
                    continue
                m = list(ms)[0]
                q, r = digits(p, m, divides(p.hi, m))
                if p in binders:
                    q2, r2 = Var(q.name, q.lo, q.hi), Var(r.name, r.lo, r.hi)
                    mp[q], mp[r] = P(q2), P(r2)
                    mp[p] = m * P(q2) + P(r2)
                    nb.append((p, (q2, r2)))
                    split.append((p, m * P(q2) + P(r2)))
                    changed = True
                elif p in fv:
                    mp[p] = m * P(q) + P(r)
                    changed = True
            if not changed:
                return binders, f, split
            f = subst(f, mp)
            d = dict(nb)
            binders = tuple(x for b in binders for x in d.get(b, (b,)))
        return binders, f, split

    def solve(self, binders, f, depth=0):
        """Alternatives [(assignment, residual formula, remaining binders)] covering all solutions, or None."""
        given = tuple(binders)
        binders, f, split = self.expand(given, f)
        if split:
            sub = self.solve(binders, f, depth + 1)
            if sub is None:
                return None
            out = []
            for mp, r, left in sub:
                mp = dict(mp)
                for b, val in reversed(split):
                    mp[b] = subst(val, mp)
                out.append((mp, r, left))
            return out
        if f == F:
            return []
        cs = conj(f)
        if not binders:
            return [({}, f, ())]
        bset = set(binders)
        for i, g in enumerate(cs):
            if g[0] == "or":
                out = []
                if depth > 6:
                    return None
                prev = T
                for h in g[1]:
                    # disjoint alternatives, so that counting stays exact
                    r = self.solve(binders, f_and(*(cs[:i] + [h, prev] + cs[i + 1:])), depth + 1)
                    if r is None:
                        return None
                    out.extend(r)
                    prev = f_and(prev, fnot(h))
                return out
        mp = self.radix(cs, bset)
        if mp is not None and depth <= 12:
            return self.solve(binders, subst(f, mp), depth + 1)
        for i, g in enumerate(cs):
            if g[0] != "eq" or not (vars_of(g) & bset):
                continue
            parts = split_eq(g[1])
            for e in parts:
                if self.decide_const(e) is False:
                    return []
            for e in parts:
                for b in binders:
                    if e.degree_in(b) != 1:
                        continue
                    c, rest = e.coeff(b)
                    if not c.isconst() or abs(c.cval()) != 1:
                        continue
                    if b in vars_of(rest):
                        continue
                    val = -rest if c.cval() == 1 else rest
                    mp = {b: val}
                    others = [mkeqp(x) for x in parts if x is not e]
                    dom = self.in_domain(b, val)
                    rest_f = f_and(*([subst(x, mp) for x in cs[:i] + cs[i + 1:]] + [subst(x, mp) for x in others] + [subst(dom, mp)]))
                    nb = tuple(x for x in binders if x is not b)
                    nb = tuple(rebind(x, mp) for x in nb)
                    sub = self.solve(nb, rest_f, depth + 1)
                    if sub is None:
                        return None
                    res = []
                    for mp2, r, lb in sub:
                        full = dict(mp2)
                        full[b] = subst(val, mp2)
                        res.append((full, r, lb))
                    return res
        return [({}, f, tuple(binders))]

    def radix(self, cs, bset):
        """m*b + p = i with bound digits b and p and a free number i: {i: m*(i//m) + i%m}, or None."""
        from .poly import digits
        for g in cs:
            if g[0] != "eq" or len(vars_of(g) & bset) < 2:
                continue
            e = g[1]
            free = [v for v in vars_of(g) if v not in bset and v.parent is None and v.lo == ZERO and v.hi is not None and v.dom is None
                    and e.degree_in(v) == 1 and e.coeff(v)[0].isconst() and abs(e.coeff(v)[0].cval()) == 1]
            for m in (PH, PW):
                low = [p for p in bset if p.lo == ZERO and p.hi == m and e.degree_in(p) == 1 and e.coeff(p)[0].isconst() and abs(e.coeff(p)[0].cval()) == 1]
                high = [b for b in bset if e.degree_in(b) == 1 and e.coeff(b)[0] in (m, -m)]
                if not low or not high:
                    continue
                for v in free:
                    n = divides(v.hi, m)
                    if n is not None and n != ONE:
                        q, r = digits(v, m, n)
                        return {v: m * P(q) + P(r)}
        return None

    def decide_const(self, e):
        return self.eq0(e)

    def in_domain(self, b, val):
        if b.dom is not None:
            if b.dom[0] == "elem":
                return mkin(val, b.dom[1])
            return ("in", val, Term("dom", *[d for d in b.dom]))
        fs = []
        if b.lo is not None:
            fs.append(fnot(mklt(val - b.lo)))
        if b.hi is not None:
            fs.append(mklt(val - b.hi))
        return f_and(*fs)

    def exists(self, binders, f):
        if self.depth > 8:
            return None
        f = split_first(f)[0]           # some element has the value iff its first occurrence has
        self.depth += 1
        try:
            alts = self.solve(binders, f)
            if alts is None:
                return None
            res = False
            for mp, r, left in alts:
                v = self.decide_left(r, left)
                if v is True:
                    return True
                if v is None:
                    res = None
            return res
        finally:
            self.depth -= 1

    def decide_left(self, r, left):
        """exists left: r, with no defining equations for left."""
        lset = set(left)
        cs = conj(r)
        dep = [g for g in cs if vars_of(g) & lset]
        ind = [g for g in cs if not (vars_of(g) & lset)]
        res = self.decide(f_and(*ind))
        if res is False:
            return False
        for g in dep:
            v = self.decide(g)
            if v is False:
                return False
            if v is None:
                res = None
        for b in left:
            if b.dom is not None:
                if b.dom[0] == "elem":
                    ne = nonempty(b.dom[1])
                    v = self.decide(ne) if ne != ("truth", b.dom[1]) else self.atoms.get(ne)
                    if v is False:
                        return False
                    if v is None:
                        res = None
                else:
                    res = None
            elif b.lo is None or b.hi is None or not nonneg(b.hi - b.lo - 1):
                res = None
        return res

    def count(self, binders, f):
        """Number of solutions: 0, 1, 'many', or None if unknown."""
        alts = self.solve(binders, f)
        if alts is None:
            return None
        n = 0
        for mp, r, left in alts:
            v = self.decide_left(r, left)
            if v is False:
                continue
            if v is None:
                return None
            if left:
                return "many"
            n += 1
        return n


def rebind(b, mp):
    if not (vars_of((b.lo, b.hi, b.dom)) & set(mp)):
        return b
    b2 = Var(b.name, subst(b.lo, mp) if b.lo is not None else None, subst(b.hi, mp) if b.hi is not None else None,
             dom=None if b.dom is None else tuple(subst(d, mp) if not isinstance(d, str) else d for d in b.dom))
    return b2


def vars_of(v):
    return free_vars(v)


def find_ite(f):
    found = []

    def pred(t):
        if isinstance(t, Term) and t.op == "ite":
            found.append(t)
            return True
        return False
    mentions(f, pred)
    return found[0] if found else None


class TermSub(Sub):
    def __init__(self, t, v, mp=None):
        Sub.__init__(self, mp or {})
        self.t, self.v = t, v

    def extend(self, b, p):
        return TermSub(self.t, self.v, {**self.mp, b: p})

    def poly(self, p):
        hit = [a for a in p.atoms() if isinstance(a, Term) or a in self.mp]
        if not hit:
            return p
        r = Poly({})
        for k, c in p.m.items():
            x = Poly.const(c)
            for a in k:
                x = x * P(self(a) if isinstance(a, Term) else self.mp.get(a, a))
            r = r + x
        return r

    def __call__(self, v):
        if isinstance(v, Term) and v == self.t:
            return self.v
        return Sub.__call__(self, v)


def subst_term(f, t, v):
    return TermSub(t, v)(f)
