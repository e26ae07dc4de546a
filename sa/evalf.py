"""Evaluation of extracted index terms, formulas and families on one small shape: used only to exhibit a concrete field
as the witness of a violation the decision procedure could not prove away."""
import itertools
from collections import Counter

from .logic import CollV, K, StrV, Tup, split_first
from .poly import H, Poly, Term, Var, W


class NoValue(Exception):
    pass


class Env(object):
    def __init__(self, w, h, vals=None, atoms=None):
        self.v = {W: w, H: h}
        self.v.update(vals or {})
        self.atoms = atoms or {}

    def sub(self, more):
        e = Env.__new__(Env)
        e.v = dict(self.v)
        e.v.update(more)
        e.atoms = self.atoms
        return e

    def num(self, a):
        if isinstance(a, Var):
            if a in self.v:
                return self.v[a]
            if a.parent is not None:
                p, m, i = a.parent
                q, r = divmod(self.num(p), self.val(m))
                return r if i else q
            raise NoValue(repr(a))
        if a in self.v:
            return self.v[a]
        if a.op == "fdiv":
            return self.val(a.args[0]) // self.nz(a.args[1])
        if a.op == "mod":
            return self.val(a.args[0]) % self.nz(a.args[1])
        if a.op == "ite":
            return self.val(a.args[1]) if self.truth(a.args[0]) else self.val(a.args[2])
        if a.op == "len":
            return sum(self.multi(a.args[0]).values())
        if a.op in ("min", "max") and len(a.args) == 2 and a.args[1] is None:
            xs = self.multi(a.args[0])
            if xs and all(isinstance(x, int) for x in xs):
                return (min if a.op == "min" else max)(xs)
        if a.op == "item":
            x = self.val(a.args[0])
            if isinstance(x, tuple) and isinstance(a.args[1], int) and -len(x) <= a.args[1] < len(x):
                return x[a.args[1]]
        f = self.atoms.get(a.op)
        if f is not None:
            return f(*[self.val(x) for x in a.args])
        raise NoValue(repr(a))

    def nz(self, p):
        v = self.val(p)
        if v == 0:
            raise NoValue("division by zero")
        return v

    def val(self, v):
        if isinstance(v, Poly):
            s = v.single()
            if s is not None:
                return self.num(s)
            t = 0
            for k, c in v.m.items():
                x = c
                for a in k:
                    n = self.num(a)
                    if not isinstance(n, int):
                        raise NoValue(repr(a))
                    x *= n
                t += x
            return t
        if isinstance(v, bool) or isinstance(v, (int, str)) or v is None:
            return v
        if isinstance(v, (Var, Term)):
            return self.num(v)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.val(x) for x in v.items)
        if isinstance(v, CollV):
            return self.multi(v)
        if isinstance(v, StrV):
            return "".join(p if isinstance(p, str) else str(self.val(p.args[0])) if isinstance(p, Term) and p.op == "str"
                           else self.bad(p) for p in v.parts)
        if isinstance(v, tuple):
            return self.truth(v)
        raise NoValue(repr(v))

    def bad(self, p):
        raise NoValue(repr(p))

    def truth(self, f):
        h = f[0]
        if h == "T":
            return True
        if h == "F":
            return False
        if h == "not":
            return not self.truth(f[1])
        if h == "and":
            return all(self.truth(g) for g in f[1])
        if h == "or":
            return any(self.truth(g) for g in f[1])
        if h == "eq":
            return self.val(f[1]) == 0
        if h == "lt":
            return self.val(f[1]) < 0
        if h == "eqv":
            return self.val(f[1]) == self.val(f[2])
        if h == "ex":
            return any(e.truth(split_first(f[2])[0]) for e in self.bind(f[1]))
        if h == "in":
            return self.multi(f[2])[self.val(f[1])] > 0
        if h == "truth" and isinstance(f[1], (CollV, Tup)):
            return bool(self.multi(f[1]))
        if h == "truth":
            x = self.val(f[1])
            return bool(x)
        if h == "cmp":
            a, b = self.val(f[2]), self.val(f[3])
            try:
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[f[1]]
            except (KeyError, TypeError):
                raise NoValue(repr(f))
        f2 = self.atoms.get(h)
        if f2 is not None:
            return f2(*[self.val(x) for x in f[1:]])
        raise NoValue(repr(f))

    def bind(self, bs):
        """Environments for all values of the binders."""
        envs = [self]
        for b in bs:
            nxt = []
            for e in envs:
                if b.dom is not None:
                    if b.dom[0] != "elem":
                        raise NoValue(repr(b))
                    vals = list(e.multi(b.dom[1]))
                elif b.lo is None or b.hi is None:
                    raise NoValue(repr(b))
                else:
                    vals = range(e.val(b.lo), e.val(b.hi))
                for x in vals:
                    nxt.append(e.sub({b: x}))
            envs = nxt
            if len(envs) > 200000:
                raise NoValue("too many")
        return envs

    def multi(self, c):
        """Counter of the elements."""
        if isinstance(c, (Var, Term)):
            c = self.num(c)
        if isinstance(c, Counter):
            return c
        if isinstance(c, (frozenset, set, list, tuple)):
            return Counter(c)
        if isinstance(c, Tup):
            return Counter(self.val(x) for x in c.items)
        if isinstance(c, (StrV, K)):
            return Counter(self.val(c))
        if not isinstance(c, CollV):
            raise NoValue(repr(c))
        n = Counter()
        for o in c.ops:
            if o[0] == "all":
                n.update(self.multi(o[1]))
                continue
            if o[0] == "carried" and "carried" in self.atoms:
                n = Counter(self.atoms["carried"](n))
                continue
            if o[0] not in ("+", "-", "-1"):
                raise NoValue(o[0])
            cond, once = split_first(o[2])
            had = set()
            for e in self.bind(o[1]):
                if not e.truth(cond):
                    continue
                x = e.val(o[3])
                if once and x in had:
                    continue
                had.add(x)
                if o[0] == "+":
                    n[x] += 1
                elif o[0] == "-":
                    n.pop(x, None)
                else:
                    n[x] -= 1
                    if n[x] <= 0:
                        n.pop(x)
        if c.kind in ("set", "frozenset"):
            n = Counter(set(n))
        return n


def loose(v, bound, acc):
    """Variables of v that are neither bound in it nor in `bound`, in order (parents before their digits)."""
    if isinstance(v, (str, int, bool, K)) or v is None:
        return acc
    if isinstance(v, Var):
        if v in bound or v in acc:
            return acc
        for x in (v.dom, v.lo, v.hi):
            if x is not None:
                loose(x, bound, acc)
        if v.parent is not None:
            loose(v.parent[0], bound, acc)
            return acc
        acc.append(v)
    elif isinstance(v, Poly):
        for a in sorted(v.atoms(), key=repr):
            loose(a, bound, acc)
    elif isinstance(v, Term):
        for a in v.args:
            loose(a, bound, acc)
    elif isinstance(v, Tup):
        for a in v.items:
            loose(a, bound, acc)
    elif isinstance(v, StrV):
        for a in v.parts:
            loose(a, bound, acc)
    elif isinstance(v, CollV):
        for o in v.ops:
            if o[0] == "all":
                loose(o[1], bound, acc)
            elif len(o) >= 4 and isinstance(o[1], tuple):
                scoped(o[1], o[2:], bound, acc)
    elif isinstance(v, (tuple, list)):
        if len(v) == 3 and v[0] == "ex":
            scoped(v[1], v[2:], bound, acc)
        else:
            for a in v:
                loose(a, bound, acc)
    return acc


def scoped(bs, rest, bound, acc):
    inner = set(bound)
    for b in bs:
        for x in (b.dom, b.lo, b.hi):
            if x is not None:
                loose(x, inner, acc)
        inner.add(b)
    for x in rest:
        loose(x, inner, acc)


def worlds(e, pc, v=None):
    """Environments extending e, one for each choice of the path's own variables under which pc holds."""
    fv = loose(tuple(pc), set(e.v), [])
    for x in loose(v, set(e.v), []):
        if x not in fv:
            fv.append(x)
    for e2 in (e.bind(fv) if fv else [e]):
        if all(e2.truth(f) for f in pc):
            yield e2


def shapes(limit=4):
    return [(w, h) for w, h in itertools.product(range(1, limit + 1), repeat=2)]


def grids(w, h, seed=1):
    """A few boards of one shape: [(numbers {(r, c): n}, candidates {(r, c): set})]."""
    import random
    rnd = random.Random(seed * 100 + w * 10 + h)
    n = w * h
    fields = [(r, c) for r in range(n) for c in range(n)]
    out = [({}, {})]
    for f in fields:
        out.append(({f: 1 + (f[0] + f[1]) % n}, {f: frozenset([n])}))
    for k in range(6):
        out.append(({f: rnd.randint(1, n) for f in fields if rnd.random() < (0.3, 0.6, 1.0)[k % 3]},
                    {f: frozenset(x for x in range(1, n + 1) if rnd.random() < 0.5) for f in fields}))
    return out


def board_atoms(grid, cands, name="s", more=None):
    """Meaning of the num and cand terms of one or more sudokus. more: {name: (numbers, candidates)}."""
    boards = dict(more or {})
    boards[name] = (grid, cands)

    def num(b, r, c):
        if b not in boards:
            raise NoValue("num")
        return boards[b][0].get((r, c), 0)

    def cand(b, r, c):
        if b not in boards:
            raise NoValue("cand")
        return boards[b][1].get((r, c), frozenset())
    return {"num": num, "cand": cand}


SMALL = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]


def latin(w, h):
    """A completely and correctly filled grid."""
    n = w * h
    return {(r, c): (w * (r % h) + r // h + c) % n + 1 for r in range(n) for c in range(n)}
