"""Shared parts of the checks built on the abstract interpreter (sa/sym.py)."""
import itertools
import os
from collections import Counter

from sa.evalf import SMALL, Env, NoValue, board_atoms, grids, shapes, worlds
from sa.logic import CollV, Decider, F, K, StrV, T, Tup, f_and, f_or, fnot, mkeq, mkeqp, mkex, mkin, mklt, refresh, show, split_first, subst
from sa.poly import H, N, ONE, P, PH, PW, Poly, Term, Var, W, ZERO
from sa.program import AnalysisBroken
from sa.report import Report
from sa.sym import BoundV, ClassV, Exc, FuncV, Interp, Ref, State, Unsupported, fresh_budget

A04 = ["Python list, range, itertools.product and integer semantics as modelled in sa/symlib.py",
       "fields are given by a row and a column inside the grid"]

FIELDCLASSES = list(itertools.product((True, False), repeat=4))       # the first one: the same field


class Field(object):
    """A generic field written by its mixed-radix digits: row = H*bR + pR, col = W*bC + pC."""
    def __init__(self, name=""):
        self.bR, self.pR = Var("bR" + name, ZERO, PW), Var("pR" + name, ZERO, PH)
        self.bC, self.pC = Var("bC" + name, ZERO, PH), Var("pC" + name, ZERO, PW)
        self.make()

    def make(self):
        self.row = PH * P(self.bR) + P(self.pR)
        self.col = PW * P(self.bC) + P(self.pC)
        self.tup = Tup([self.row, self.col])

    def digits(self):
        return (self.bR, self.pR, self.bC, self.pC)

    def target(self, same, name="t"):
        """(field, facts): a field sharing exactly the digits flagged in same."""
        t = Field.__new__(Field)
        facts = []
        for i, d in enumerate(("bR", "pR", "bC", "pC")):
            mine = getattr(self, d)
            if same[i]:
                setattr(t, d, mine)
            else:
                v = Var(d + name, mine.lo, mine.hi)
                setattr(t, d, v)
                facts.append(fnot(mkeqp(P(v) - P(mine))))
        t.make()
        return t, facts

    def env(self, w, h, row, col):
        return {self.bR: row // h, self.pR: row % h, self.bC: col // w, self.pC: col % w}


def digit_name(same):
    n = [x for x, s in zip(("row band", "row in band", "column stack", "column in stack"), same) if s]
    return "fields sharing " + (", ".join(n) if n else "nothing")


def same_row(s):
    return s[0] and s[1]


def same_col(s):
    return s[2] and s[3]


def same_box(s):
    return s[0] and s[2]


def same_field(s):
    return all(s)


def relations(s):
    return {"row": same_row(s), "column": same_col(s), "box": same_box(s),
            "surrounding": same_row(s) or same_col(s) or same_box(s)}


def concrete_relations(w, h, a, b):
    r = a[0] == b[0]
    c = a[1] == b[1]
    x = a[0] // h == b[0] // h and a[1] // w == b[1] // w
    return {"row": r, "column": c, "box": x, "surrounding": r or c or x}


def mult(c, x, D):
    """How often x occurs in c: a number, 'many' or None (unknown)."""
    if isinstance(c, Tup):
        n = 0
        for y in c.items:
            r = D.decide(mkeq(y, x))
            if r is None:
                return None
            n += 1 if r else 0
        return n
    n = 0
    for o in c.ops:
        if o[0] == "+":
            b, cond, e = refresh(o[1], o[2], o[3])
            cond, once = split_first(cond)
            k = D.count(b, f_and(cond, mkeq(e, x)))
            if k is None:
                return None
            if once and k:
                k = 1
            if k == "many" or n == "many":
                n = "many"
            else:
                n += k
        elif o[0] == "-":
            b, cond, e = refresh(o[1], o[2], o[3])
            r = D.decide(mkex(b, f_and(cond, mkeq(e, x))))
            if r is None:
                return None
            if r:
                n = 0
        elif o[0] == "-1" and not o[1]:
            r = D.decide(f_and(o[2], mkeq(o[3], x)))
            if r is None or (r and n == "many"):
                return None
            if r and n:
                n -= 1
        else:
            return None
    if c.kind in ("set", "frozenset") and n not in (0, 1):
        return 1
    return n


def outcomes(I, f, args, kwargs, st):
    """All paths [(state, value | Exc)] with collection values as snapshots."""
    try:
        return outcomes_(I, f, args, kwargs, st)
    except (Unsupported, AnalysisBroken):
        raise
    except Exception as e:       # a construct the interpreter was not written for: no verdict, not an alarm
        if os.environ.get("VERIF_DEBUG"):
            raise
        raise Unsupported("%s in the interpreter: %s" % (type(e).__name__, e))


def outcomes_(I, f, args, kwargs, st):
    out = []
    for s, v in I.call(f, args, kwargs, st):
        if not s.feasible():
            continue
        if isinstance(v, Exc):
            out.append((s, v))
            continue
        for s2, v2 in listed(I, v, s):
            out.append((s2, v2))
    return out


def listed(I, v, s):
    from sa.sym import Gen
    if isinstance(v, Ref):
        r = I.rec(s, v)
        if isinstance(r, Gen):
            yield from I.iterate(v, s)
            return
        yield s, I.plain(v, s)
        return
    yield s, v


def where(I, f):
    """file:line of a function value."""
    f = f.func if isinstance(f, BoundV) else f
    if isinstance(f, FuncV):
        return "%s %s" % (I.prog.loc(f.node), f.qual)
    return "?"


def public(I, mod, name):
    v = I.glob(mod, name)
    if v is None:
        raise AnalysisBroken("public name %s.%s not found" % (mod, name))
    return v


def method(I, cls, name):
    m = cls.find(name)
    if m is None:
        raise AnalysisBroken("public method %s.%s not found" % (cls.name, name))
    return m


def decide_family(I, rep, rule, construct, loc, outs, field, expect, expect_concrete, extra=()):
    """Is every outcome a collection holding each target exactly expect(class) times?"""
    try:
        ok, why = prove_family(outs, field, expect, extra)
        if ok:
            rep.holds(rule, construct, why)
            return True
        w = witness_family(outs, field, expect_concrete)
        if w is not None:
            rep.violate(rule, construct, w, loc)
            return False
        if ok is False and unevaluable(outs, field):
            rep.violate(rule, construct, why, loc)
            return False
        rep.undecided(rule, construct, why)
        return None
    except Unsupported as e:
        rep.undecided(rule, construct, "no transfer function: %s" % e)
        return None


def prove_family(outs, field, expect, extra=()):
    if not outs:
        return None, "no outcome"
    unknown = None
    for s, v in outs:
        for same in FIELDCLASSES:
            t, facts = field.target(same)
            D = Decider(pc=tuple(s.pc) + tuple(facts) + tuple(extra))
            if any(D0 is False for D0 in [decide_pc(s.pc, facts, extra)]):
                continue
            if isinstance(v, Exc):
                unknown = "%s is raised when %s" % (v.name, show(f_and(*s.pc)))
                break
            if not isinstance(v, (CollV, Tup)):
                return False, "the result is not a collection: %r" % (v,)
            n = mult(v, t.tup, D)
            want = expect(same)
            if n is None:
                unknown = "multiplicity of %s in %r not decided" % (digit_name(same), v)
            elif n != want:
                return False, "%s: occur %s times instead of %d in %r" % (digit_name(same), n, want, v)
    if unknown:
        return None, unknown
    return True, "; ".join("%r%s" % (v, " when " + show(f_and(*s.pc)) if s.pc else "") for s, v in outs)


def decide_pc(pc, facts, extra):
    D = Decider(pc=tuple(facts) + tuple(extra))
    return D.decide(f_and(*pc)) if pc else True


def witness_family(outs, field, expect_concrete):
    try:
        for w, h in shapes():
            n = w * h
            for row in range(n):
                for col in range(n):
                    e = Env(w, h, field.env(w, h, row, col))
                    want = expect_concrete(w, h, row, col)
                    for s, v in outs:
                        if not all(e.truth(f) for f in s.pc):
                            continue
                        if isinstance(v, Exc):
                            return "box size %dx%d, field (%d, %d): raises %s" % (w, h, row, col, v.name)
                        got = e.multi(v)
                        if got != want:
                            miss, more = want - got, got - want
                            return "box size %dx%d, field (%d, %d): %s" % (w, h, row, col, "; ".join(
                                x for x in ("missing %s" % sorted(miss.elements())[:4] if miss else "",
                                            "too many %s" % sorted(more.elements(), key=repr)[:4] if more else "") if x))
    except NoValue:
        return None
    return None


def unevaluable(outs, field):
    try:
        e = Env(2, 3, field.env(2, 3, 1, 1))
        for s, v in outs:
            if all(e.truth(f) for f in s.pc) and not isinstance(v, Exc):
                e.multi(v)
        return False
    except NoValue:
        return True


def simplify(f, D):
    """Replace parts of a formula that D decides."""
    r = D.decide(f)
    if r is not None:
        return T if r else F
    if f[0] == "and":
        return f_and(*[simplify(g, D) for g in f[1]])
    if f[0] == "or":
        return f_or(*[simplify(g, D) for g in f[1]])
    if f[0] == "not":
        return fnot(simplify(f[1], D))
    if f[0] == "ex":                       # one-point rule
        alts = D.solve(f[1], split_first(f[2])[0])
        if alts is not None and all(not left for _mp, _r, left in alts):
            return f_or(*[simplify(g, D) for _mp, g, _left in alts])
    return f


def num_atoms(f, board):
    """num terms of a sudoku inside a formula."""
    found = []

    def pred(t):
        if isinstance(t, Term) and t.op == "num" and t.args[0] == board and t not in found:
            found.append(t)
        return False
    from sa.logic import mentions
    mentions(f, pred)
    return found


def excluded_family(g, v, board):
    """g = not(exists fields: cond and num(field) = v): the family [(binders, cond, field)] of fields, or None."""
    from sa.logic import TermSub, conj
    if g[0] != "not":
        return None
    bs, f = ((), g[1])
    if f[0] == "ex":
        bs, f = f[1], f[2]
    out = []
    for alt in (f[1] if f[0] == "or" else (f,)):
        hit = None
        rest = []
        for c in conj(alt):
            if hit is None and c[0] == "eq":
                ts = [t for t in num_atoms(c, board)]
                if len(ts) == 1 and c[1] in (P(ts[0]) - P(v), P(v) - P(ts[0])):
                    hit = ts[0]
                    continue
            rest.append(c)
        if hit is None:
            return None
        cond = TermSub(hit, P(v))(f_and(*rest))
        out.append((bs, cond, Tup([hit.args[1], hit.args[2]])))
    return out


def lift_facts(pc):
    return tuple(f for f in pc)


def settle(rep, rule, construct, loc, proved, refute):
    """proved: (True|False|None, why); refute() -> counter-model text or None."""
    ok, why = proved
    if ok is True:
        rep.holds(rule, construct, why)
        return True
    w = refute()
    if w is not None:
        rep.violate(rule, construct, w, loc)
        return False
    rep.check(ok, rule, construct, message=why, loc=loc)
    return ok


def as_set(e, v):
    return set(e.multi(v))


def as_bag(e, v):
    return e.multi(v)


def as_value(e, v):
    return e.val(v)


class Model(object):
    """A small sudoku (and a second one, other) with a field in it."""
    def __init__(self, w, h, grid, cands, row, col, other=None):
        self.w, self.h, self.n, self.grid, self.cands, self.row, self.col, self.other = w, h, w * h, grid, cands, row, col, other

    def fields(self):
        return [(r, c) for r in range(self.n) for c in range(self.n)]

    def num(self, f):
        return self.grid.get(f, 0)

    def cand(self, f):
        return self.cands.get(f, frozenset())

    def peers(self, f):
        return [g for g in self.fields() if g != f and concrete_relations(self.w, self.h, f, g)["surrounding"]]

    def __str__(self):
        return "box size %dx%d, numbers %s%s, field (%d, %d)" % (
            self.w, self.h, self.grid, "" if self.other is None else ", other numbers %s" % (self.other[0],), self.row, self.col)


def models(two=False, wild=False, step=1):
    for w, h in SMALL:
        n = w * h
        gs = grids(w, h)
        if wild:              # contents that do not belong to the grid
            gs = gs + [({(r, c): 3 * n - r for r in range(n) for c in range(n) if r != c}, {(r, c): frozenset([0, c + n]) for r in range(n) for c in range(n)})]
        for k, (grid, cands) in enumerate(gs[::step] if len(gs) > 12 else gs):
            for row, col in sorted(set([(0, 0), (n - 1, n - 2), (n // 2, n // 2), (0, n - 1)])):
                if not two:
                    yield Model(w, h, grid, cands, row, col)
                    continue
                yield Model(w, h, grid, cands, row, col, (dict(grid), dict(cands)))
                g2, c2 = dict(grid), dict(cands)
                g2[row, col] = grid.get((row, col), 0) % n + 1
                yield Model(w, h, grid, cands, row, col, (g2, dict(cands)))
                c2[row, col] = frozenset([1]) if cands.get((row, col)) != frozenset([1]) else frozenset()
                yield Model(w, h, grid, cands, row, col, (dict(grid), c2))


def refute(outs, field, want, read, two=False, vals=None, other="o", wild=False):
    """A small model in which an extracted outcome differs from want(model); None if there is none or it cannot be told.
    want may return None: no demand."""
    try:
        for m in models(two, wild):
            w = want(m)
            if w is None:
                continue
            v0 = field.env(m.w, m.h, m.row, m.col) if field is not None else {}
            v0.update(vals(m) if vals else {})
            e = Env(m.w, m.h, v0, board_atoms(m.grid, m.cands, more={other: m.other} if two else None))
            for s, v in outs:
                ws = list(worlds(e, s.pc, None if isinstance(v, Exc) else v))
                if not ws:
                    continue
                if isinstance(v, Exc):
                    return "%s: raises %s" % (m, v.name)
                gots = [read(e2, v) for e2 in ws]
                got = gots[0]
                if all(g != w for g in gots):
                    if isinstance(got, Counter) or isinstance(w, Counter):
                        got, w = sorted(Counter(got).elements(), key=repr), sorted(Counter(w).elements(), key=repr)
                    return "%s: %s instead of %s" % (m, got, w)
    except NoValue:
        return None
    return None


def equations(v, seen=None):
    """All atoms p = 0 inside formulas and collections."""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, CollV):
        v = v.ops
    elif isinstance(v, Tup):
        v = tuple(v.items)
    elif isinstance(v, Term):
        v = tuple(v.args)
    elif isinstance(v, Poly):
        v = tuple(v.atoms())
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "eq" and isinstance(v[1], Poly):
            yield v
        for x in v:
            if not isinstance(x, (str, int)):
                yield from equations(x, seen)
