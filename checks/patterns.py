"""C12: the patterns behind candidate eliminations.  C14: progress of every step."""
import random
import time

from .lib import *
from sa.evalf import loose
from sa.logic import conj, mentions, nonempty, vars_of
from sa.poly import digits, divmod_poly
from sa.sym import Coll, Inst, ObjV, fresh_budget, is_pick

RULE = ("abstract interpretation of find() and apply() of every elimination step on a generic sudoku of every shape: all steps found, as families of (clues, affected "
        "fields, values) with their conditions, and all candidates their application removes; for each family it is deduced from the conditions - by equality "
        "elimination, instances of universal facts, and the rules 'a subset has at most as many elements' and 'elements of a one-element set are equal' - that the "
        "claimed pattern is present and forbids every removed candidate")
ASSUME = ["standard library functions behave as modelled in sa/symlib.py",
          "a step is found and applied on the same state of the sudoku",
          "which of several steps with the same clues is suppressed as already found is left open (all of them are examined)"]
SOLVERS = "sudokutools.solvers"
CHANGES = ("remove_candidates", "set_candidates", "set_number")
SECONDS = int(os.environ.get("VERIF_SECONDS", "100"))          # for the search of a counter-model, if there is no proof
HOUSES = ("row", "column", "box")


# ---------------------------------------------------------------- the steps found
class Step(object):
    """A family of steps: facts about its own variables, the attributes, and the changes its application makes."""
    def __init__(self, facts, clues, affected, values, changes, bs=(), cond=T, once=False):
        self.facts, self.clues, self.affected, self.values, self.changes = facts, clues, affected, values, changes
        self.bs, self.cond, self.once = bs, cond, once


def wake(I, v, st):
    """A yielded object, made for this step alone."""
    if isinstance(v, CollV) and v.kind in ("list", "set"):
        return I.new(st, Coll(v.kind, v.ops))
    if isinstance(v, ObjV):
        return I.new(st, Inst(v.cls, {k: wake(I, x, st) for k, x in v.attrs}))
    return v


def recorder(kind):
    def f(I, args, kw, st, node):
        names = ["row", "col", {"remove_candidates": "values", "set_candidates": "values", "set_number": "value"}[kind]]
        given = dict(zip(names, args[1:]))
        given.update(kw)
        if sorted(given) != sorted(names):
            raise Unsupported("arguments of %s" % kind, node)
        st.ev += (("change", kind) + tuple(I.plain(given[n], st) for n in names),)
        yield st, K(None)
    return f


def flatten(e, bs=(), cond=T):
    if e[0] == "fam":
        b, c, x = refresh(e[1], e[2], e[3])
        yield from flatten(x, bs + b, f_and(cond, c))
    else:
        yield bs, cond, e


def domains(bs):
    return tuple(mkin(P(b), b.dom[1]) for b in bs if b.dom is not None and b.dom[0] == "elem")


def steps_of(I, cls):
    """All families of steps cls.find() yields on a generic sudoku."""
    st = State()
    b = I.generic_board(st, "s")
    for s0, f in I.getattr(cls, "find", st, None):
        for s, v in I.call(f, [b], {}, s0):
            if isinstance(v, Exc):
                raise Unsupported("find raises %s" % v.name)
            for s2, c in I.iterate(v, s, None):
                if isinstance(c, Exc):
                    raise Unsupported("find raises %s" % c.name)
                for bs, cond, el in I.items_of(c, s2):
                    yield from applied(I, b, bs, cond, el, s2)


def applied(I, b, bs, cond, el, st):
    cond, once = split_first(cond)
    bs, cond, el = refresh(bs, cond, el)
    s = st.fork()
    s.add(cond)
    for f in domains(bs):
        s.add(f)
    s.ev = ()
    x = wake(I, el, s)
    r = I.rec(s, x) if isinstance(x, Ref) else None
    if not isinstance(r, Inst):
        raise Unsupported("a step that is not an object")
    attrs = {}
    for n in ("clues", "affected", "values"):
        outs = list(I.getattr(x, n, s, None))
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("attribute %s" % n)
        attrs[n] = I.plain(outs[0][1], outs[0][0])
    for s1, g in I.getattr(x, "apply", s, None):
        for s2, v in I.call(g, [b], {}, s1):
            if isinstance(v, Exc):
                raise Unsupported("apply raises %s" % v.name)
            changes = [ch for e in s2.ev for ch in flatten(e)]
            yield Step(tuple(s2.pc), attrs["clues"], attrs["affected"], attrs["values"], changes, bs, cond, once)


# ---------------------------------------------------------------- deduction
def fam(c):
    """Families (binders, condition, element) of a collection of clues or values."""
    if isinstance(c, Tup):
        return [((), T, x) for x in c.items]
    if isinstance(c, CollV):
        if any(o[0] == "all" and isinstance(o[1], (Tup, CollV)) for o in c.ops) and all(o[0] in ("+", "all") for o in c.ops):
            return [f for o in c.ops for f in (fam(o[1]) if o[0] == "all" and isinstance(o[1], (Tup, CollV)) else fam(CollV(c.kind, [o])))]
        if any(o[0] == "+" and split_first(o[2])[1] for o in c.ops):
            c = CollV(c.kind, [(o[0], o[1], split_first(o[2])[0], o[3]) if o[0] == "+" else o for o in c.ops])
        from sa.logic import flat
        fl = flat(c)
        if fl is not None:
            return fl
    raise Unsupported("elements of %r" % (c,))


class TooLong(Exception):
    pass


class Proof(object):
    """Deduction from facts about arbitrary but fixed values."""
    def __init__(self):
        self.left = self.steps = 0

    def spend(self):
        self.left -= 1
        self.steps += 1
        if self.left < 0:
            raise TooLong()

    def decide(self, facts, f):
        self.spend()
        return Decider(pc=facts).decide(f)

    def holds(self, facts, goal, depth=3):
        if goal == T:
            return True
        if goal[0] == "and":
            return all(self.holds(facts, g, depth) for g in goal[1])
        self.left = 2
        if goal != F and self.decide(facts, goal) is True:
            return True
        if not depth:
            return False
        against = tuple(conj(fnot(goal)))
        vs = vars_of(goal)
        near = tuple(f for f in facts if f[0] != "ex" and vars_of(f) <= vs)
        light = tuple(f for f in facts if f[0] != "ex" and not (f[0] == "or" and any(h[0] == "ex" for g in f[1] for h in conj(g))))
        for some in (near, light, tuple(facts)):
            if some is near or len(some) > len(near) and (some is light or len(some) > len(light)):
                self.left = 400
                try:
                    if self.absurd(some + against, depth):
                        return True
                except TooLong:
                    pass
        return False

    def absurd(self, facts, depth=3):
        """Do the facts contradict each other?"""
        self.spend()
        work = []
        for f in facts:
            work.extend(conj(f))
        facts = []
        for f in work:
            if f == F:
                return True
            if f != T and f not in facts:
                facts.append(f)
        # an equation for a plain variable: replace it everywhere
        for i, f in enumerate(facts):
            if f[0] != "eq":
                continue
            s = self.solved(f[1])
            if s is not None:
                v, val = s
                return self.absurd([subst(g, {v: val}) for j, g in enumerate(facts) if j != i], depth)
        # witnesses of what exists
        for i, f in enumerate(facts):
            if f[0] == "ex" and depth > 0 and len(f[1]) <= 3:
                b, c = refresh(f[1], f[2])
                if f[2][0] != "or":
                    return self.absurd(facts[:i] + facts[i + 1:] + [c] + list(domains(b)), depth)
        known = set(facts)
        for f in facts:
            if fnot(f) in known:
                return True
            if f[0] in ("in", "truth") or f[0] == "not" and f[1][0] in ("in", "truth"):
                continue
            self.spend()
            if Decider(pc=[g for g in facts if g is not f]).decide(f) is False:
                return True
        for i, f in enumerate(facts):
            alts = alternatives(f)
            if alts is None:
                continue
            rest = facts[:i] + facts[i + 1:]
            D = Decider(pc=rest)
            self.spend()
            left = [a for a in alts if D.decide(a) is not False]
            if any(D.decide(a) is True for a in left):
                return self.absurd(rest, depth)
            if len(left) < 2:
                return not left or self.absurd(rest + left, depth)
            if len(left) < len(alts):
                return self.absurd(rest + [f_or(*left)], depth)
        new = self.singles(facts)
        if new:
            return self.absurd(facts + new, depth)
        if depth > 0:
            for i, f in enumerate(facts):
                alts = alternatives(f)
                if alts is not None and len(alts) <= 8:
                    rest = facts[:i] + facts[i + 1:]
                    if all(self.absurd(rest + [a], depth - 1) for a in alts):
                        return True
        return False

    def solved(self, p):
        for v in sorted(vars_of(p), key=lambda x: x.key()):
            if v in (W, H) or v.parent is not None or p.degree_in(v) != 1:
                continue
            c, rest = p.coeff(v)
            if c.isconst() and abs(c.cval()) == 1 and v not in vars_of(rest):
                val = -rest if c.cval() == 1 else rest
                if v.dom is None and any(u.parent is not None and u.parent[0] is v for u in vars_of(rest)):
                    continue
                return v, val
        return None

    def singles(self, facts):
        """Equations between elements of sets that are known to have one element."""
        ones = [f for f in facts if f[0] == "eq" and any(isinstance(a, Term) and a.op == "len" for k in f[1].m for a in k)]
        out = []
        for f in ones:
            t = [a for k in f[1].m for a in k if isinstance(a, Term) and a.op == "len"]
            if len(t) != 1 or f[1] not in (P(t[0]) - 1, 1 - P(t[0])):
                continue
            els = []
            try:
                fams = fam(t[0].args[0])
            except Unsupported:
                continue
            for b, c, e in fams:
                for mp in self.matches(facts, b, c):
                    x = subst(e, mp)
                    if x not in els:
                        els.append(x)
            for x in els[1:]:
                g = mkeq(els[0], x)
                for h in conj(g):
                    if h[0] == "eq":
                        for q in Decider().split(h) if hasattr(Decider, "split") else [h]:
                            if q not in facts and q not in out and self.decide(facts, q) is not True:
                                out.append(q)
        return out

    def matches(self, facts, bs, cond):
        """Values of the variables for which the condition is known, found by comparing candidates of fields."""
        pats = [g for g in conj(cond) if g[0] == "in" and isinstance(g[2], Term) and g[2].op == "cand"]
        ground = [g for g in facts if g[0] == "in" and isinstance(g[2], Term) and g[2].op == "cand"]
        if not bs:
            return [{}] if self.decide(facts, cond) is True else []
        out = []
        for p in pats[:1]:
            for g in ground:
                if g[2].args[0] != p[2].args[0]:
                    continue
                eqs = f_and(mkeq(p[2].args[1], g[2].args[1]), mkeq(p[2].args[2], g[2].args[2]), mkeq(p[1], g[1]))
                self.spend()
                D = Decider(pc=facts)
                alts = D.solve(bs, eqs)
                for mp, r, left in alts or ():
                    if left or D.decide(r) is not True:
                        continue
                    c = subst(cond, mp)
                    if D.decide(c) is True and all(D.decide(D.in_domain(b, mp[b])) is True for b in bs if b in mp):
                        out.append(mp)
        return out

    def atmost(self, facts, U, k, depths=(0, 2)):
        """Has the set of the families U at most k elements?"""
        return any(self.atmost_(facts, U, k, d) for d in depths)

    def atmost_(self, facts, U, k, depth):
        for f in facts:
            n = None
            p = f[1][1] if f[0] == "not" else f[1]
            if not isinstance(p, Poly) or f[0] not in ("lt", "eq", "not"):
                continue
            t = [(a, c) for kk, c in p.m.items() for a in kk if isinstance(a, Term) and a.op == "len"]
            if len(t) != 1 or abs(t[0][1]) != 1:
                continue
            t, c = t[0]
            rest = p - P(t) * c
            if not rest.isconst():
                continue
            r = rest.cval()
            if f[0] == "lt" and c == 1:
                n = -r - 1
            elif f[0] == "eq":
                n = -r * c
            elif f[0] == "not" and f[1][0] == "lt" and c == -1:
                n = r
            if n is None or n > k:
                continue
            S = t.args[0]
            if not isinstance(S, (CollV, Tup, Term)):
                continue
            if isinstance(S, Term):
                S = CollV("set", [("all", S)])
            good = True
            for b, cnd, e in U:
                b, cnd, e = refresh(b, cnd, e)
                if not self.holds(tuple(facts) + tuple(domains(b)) + tuple(conj(cnd)), member(e, S), depth):
                    good = False
                    break
            if good:
                return True
        return False

    def atleast(self, facts, fams, key=lambda e: e):
        """So many different keys the elements of the families have for certain."""
        keys = []
        for b, c, e in fams:
            k = key(e)
            if b and (vars_of(k) & set(b) or not self.holds(facts, nonempty(CollV("list", [("+", b, c, e)])))):
                continue
            if not b and c != T and not self.holds(facts, c):
                continue
            if all(self.holds(facts, fnot(mkeq(k, x))) for x in keys):
                keys.append(k)
        return len(keys)


def alternatives(f):
    return list(f[1]) if f[0] == "or" else [fnot(g) for g in f[1][1]] if f[0] == "not" and f[1][0] == "and" else None


def member(e, S):
    f = mkin(e, CollV(S.kind, [(o[0], o[1], split_first(o[2])[0], o[3]) if o[0] == "+" else o for o in S.ops]) if isinstance(S, CollV) else S)
    if f[0] == "in" and isinstance(S, CollV) and all(o[0] in ("+", "all") for o in S.ops):
        parts = []
        for o in S.ops:
            if o[0] == "all":
                parts.append(("in", e, o[1]) if isinstance(o[1], Term) else member(e, o[1]))
            else:
                b, c, x = refresh(o[1], split_first(o[2])[0], o[3])
                parts.append(mkex(b, f_and(c, mkeq(x, e))))
        return f_or(*parts)
    return f


def roles(v, vs, acc):
    """The variables of vs that are part of the row or the column of a field whose candidates are mentioned."""
    def look(t):
        if isinstance(t, Term) and t.op == "cand":
            for m, p in ((PH, t.args[1]), (PW, t.args[2])):
                for x in vars_of(p) & vs:
                    if p.degree_in(x) == 1:
                        acc.setdefault(x, set()).add(m)
        return False
    mentions(v, look)
    return acc


def digitised(vs, full, *vals):
    """The values with every row or column (full: every one; otherwise, whose // or % is used) written by its digits."""
    used = roles(tuple(vals), vs, {}) if full else {}

    def look(t):
        if isinstance(t, Var) and t.parent is not None and t.parent[0] in vs:
            used.setdefault(t.parent[0], set()).add(t.parent[1])
        return False
    for v in vals:
        for x in all_vars(v, set()):
            look(x)
    mp = {}
    for v, ms in used.items():
        if len(ms) == 1 and v.lo == ZERO and v.hi == N:
            m = list(ms)[0]
            mp[v] = m * P(Var(v.name + "q", ZERO, PW if m == PH else PH)) + P(Var(v.name + "r", ZERO, m))
    return mp, tuple(subst(v, mp) for v in vals)


def bound_vars(v, acc):
    if isinstance(v, Poly):
        for a in v.atoms():
            if isinstance(a, Term):
                bound_vars(a, acc)
    elif isinstance(v, Term):
        bound_vars(v.args, acc)
    elif isinstance(v, Tup):
        bound_vars(v.items, acc)
    elif isinstance(v, CollV):
        for o in v.ops:
            if o[0] != "all" and len(o) > 3:
                acc.update(o[1])
            bound_vars(o, acc)
    elif isinstance(v, (tuple, list)):
        if len(v) == 3 and v[0] == "ex":
            acc.update(v[1])
        for a in v:
            bound_vars(a, acc)
    return acc


def all_vars(v, acc):
    """All variables, bound ones and digits included."""
    if isinstance(v, Var):
        if v not in acc:
            acc.add(v)
            for x in (v.lo, v.hi, v.dom):
                if x is not None:
                    all_vars(x, acc)
    elif isinstance(v, Poly):
        for a in v.atoms():
            all_vars(a, acc)
    elif isinstance(v, Term):
        for a in v.args:
            all_vars(a, acc)
    elif isinstance(v, Tup):
        for a in v.items:
            all_vars(a, acc)
    elif isinstance(v, CollV):
        for o in v.ops:
            all_vars(o, acc)
    elif isinstance(v, (tuple, list)):
        for a in v:
            all_vars(a, acc)
    return acc


# ---------------------------------------------------------------- fields and houses
def rc(f):
    if isinstance(f, Tup) and len(f.items) == 2 and all(isinstance(x, Poly) for x in f.items):
        return f.items
    raise Unsupported("not a field: %r" % (f,))


def same(kind, a, b):
    """The formula: fields a and b lie in one row, column or box."""
    (r1, c1), (r2, c2) = rc(a), rc(b)
    if kind == "row":
        return mkeq(r1, r2)
    if kind == "column":
        return mkeq(c1, c2)
    return f_and(mkeq(divmod_poly(r1, PH)[0], divmod_poly(r2, PH)[0]), mkeq(divmod_poly(c1, PW)[0], divmod_poly(c2, PW)[0]))


def other_in(kind, z, full=False):
    """An arbitrary field of a house of z (full: written by digits)."""
    r, c = rc(z)
    if kind == "row":
        return Tup([r, PW * P(Var("jq", ZERO, PH)) + P(Var("jr", ZERO, PW)) if full else P(Var("j", ZERO, N))])
    if kind == "column":
        return Tup([PH * P(Var("jq", ZERO, PW)) + P(Var("jr", ZERO, PH)) if full else P(Var("j", ZERO, N)), c])
    return Tup([PH * divmod_poly(r, PH)[0] + P(Var("p", ZERO, PH)), PW * divmod_poly(c, PW)[0] + P(Var("q", ZERO, PW))])


def cand(f):
    r, c = rc(f)
    return Term("cand", "s", r, c)


# ---------------------------------------------------------------- the patterns, as obligations
class Removal(object):
    """One removed candidate: field t, number v, and everything known about the step."""
    def __init__(self, facts, clues, values, t, v):
        self.facts, self.clues, self.values, self.t, self.v = facts, clues, values, t, v


def each(fams, full=False):
    for b, c, e in fams:
        b, c, e = refresh(b, c, e)
        more = tuple(domains(b)) + tuple(conj(c))
        if full:
            mp = {}
            for x, m, n in zip(rc(e), (PH, PW), (PW, PH)):
                v = x.single()
                if isinstance(v, Var) and v in b and v not in mp and v.lo == ZERO and v.hi == N:
                    mp[v] = m * P(Var(v.name + "q", ZERO, n)) + P(Var(v.name + "r", ZERO, m))
            more, e = subst(more, mp), subst(e, mp)
        yield more, e


def naked(p, x):
    clues = fam(x.clues)
    k = p.atleast(x.facts, clues)
    if not k:
        return "no field is known to belong to the pattern"
    if not any(all(p.holds(x.facts + more, same(h, z, x.t), depth) for more, z in each(clues)) for depth in (0, 3) for h in HOUSES):
        return "its fields and the field %r are not in one house" % (x.t,)
    for more, z in each(clues):
        if not p.holds(x.facts + more, fnot(mkeq(z, x.t))):
            return "candidates of its own field %r may be removed" % (z,)
    union = []
    for b, c, z in clues:
        e = Var("x", dom=("elem", cand(z)))
        union.append((tuple(b) + (e,), c, P(e)))
    if not p.atmost(x.facts, union, k):
        return "its %d fields may have more than %d candidates" % (k, k)
    if not p.holds(x.facts, f_or(*[mkex(*refresh(b, f_and(c, mkin(x.v, cand(z))))) for b, c, z in clues])):
        return "a candidate that none of its fields has may be removed"
    return None


def hidden(p, x):
    nums = fam(x.values)
    k = p.atleast(x.facts, nums)
    if not k:
        return "no number is known to belong to the pattern"
    for more, w in each(nums):
        if not p.holds(x.facts + more, fnot(mkeq(w, x.v))):
            return "one of its own numbers may be removed"
    if not p.holds(x.facts, f_or(*[mkex(*refresh(b, f_and(c, mkin(w, cand(x.t))))) for b, c, w in nums])):
        return "candidates of %r, that has none of its numbers, may be removed" % (x.t,)
    for depth in (0, 2):
        for h in HOUSES:
            y = other_in(h, x.t)
            if p.atmost(x.facts, [(tuple(vars_of(y) - vars_of(x.t) - {W, H}) + tuple(b), f_and(c, mkin(w, cand(y))), y) for b, c, w in nums], k, (depth,)):
                return None
    return "its %d numbers may occur in more than %d fields of the house" % (k, k)


def number(p, x):
    nums = fam(x.values)
    if len(nums) != 1 or nums[0][0] or not p.holds(x.facts, mkeq(nums[0][2], x.v)):
        return "another candidate than the one of the pattern may be removed"
    return None


def pointing(p, x):
    bad = number(p, x)
    if bad:
        return bad
    clues = fam(x.clues)
    some = None
    for b, c, e in clues:
        if p.holds(x.facts, nonempty(CollV("list", [("+", b, c, e)]))):
            some = next(each([(b, c, e)], True))
            break
    if some is None:
        return "no field is known to belong to the pattern"
    facts, z = x.facts + some[0], some[1]
    if not p.holds(facts, mkin(x.v, cand(z))):
        return "its fields may lack the candidate"
    why = "the candidate may be left in other fields of the box and the line"
    for line in ("row", "column"):
        for outer, inner in ((line, "box"), ("box", line)):
            # the fields with the candidate in `inner` lie in `outer`; it is removed from the rest of `outer`
            if not p.holds(facts, same(outer, x.t, z)):
                continue
            y = other_in(inner, z, True)
            if not p.holds(facts + (mkin(x.v, cand(y)),), same(outer, y, z)):
                continue
            if not all(p.holds(facts + more, f_and(same(outer, w, z), same(inner, w, z))) for more, w in each(clues, True)):
                why = "its fields may lie outside the intersection"
                continue
            if p.holds(facts, fnot(same(inner, x.t, z))):
                return None
            why = "the candidate may be removed inside the %s it is confined to" % inner
    return why


def fish(p, x):
    bad = number(p, x)
    if bad:
        return bad
    clues = fam(x.clues)
    why = None
    for base, cover in ((0, 1), (1, 0)):
        name = ("rows", "columns")[base]
        n = p.atleast(x.facts, clues, lambda z: rc(z)[base])
        if not n:
            continue
        covers = [(b, c, rc(z)[cover]) for b, c, z in clues]
        if not p.atmost(x.facts, covers, n):
            why = why or "its %d %s may have the candidate in more than %d crossing lines" % (n, name, n)
            continue
        S = CollV("set", [("+", b, c, e) for b, c, e in covers])
        ok = True
        for more, z in each(clues):
            y = other_in(HOUSES[base], z)
            if not p.holds(x.facts + more + (mkin(x.v, cand(y)),), member(rc(y)[cover], S)):
                why, ok = "other fields of its %s may have the candidate" % name, False
                break
            if not p.holds(x.facts + more, mkin(x.v, cand(z))):
                why, ok = "its fields may lack the candidate", False
                break
            if not p.holds(x.facts + more, fnot(mkeq(rc(x.t)[base], rc(z)[base]))):
                why, ok = "the candidate may be removed from its own %s" % name, False
                break
        if not ok:
            continue
        if p.holds(x.facts, member(rc(x.t)[cover], S)):
            return None
        why = "the candidate may be removed from a line that is not one of the crossing lines"
    return why or "no set of lines is known to belong to the pattern"


KINDS = {"NakedPair": naked, "NakedTriple": naked, "NakedQuad": naked, "NakedQuint": naked,
         "HiddenPair": hidden, "HiddenTriple": hidden, "HiddenQuad": hidden, "HiddenQuint": hidden,
         "PointingPair": pointing, "PointingTriple": pointing, "XWing": fish, "Swordfish": fish, "Jellyfish": fish}


def removals(step, full=False):
    """Every candidate a step removes, as arbitrary but fixed values."""
    for bs, cond, ch in step.changes:
        if ch[1] != "remove_candidates":
            raise Unsupported("%s in an elimination step" % ch[1])
        for b, c, e in fam(ch[4]):
            bs2, cond2, b2, c2, r, cl, v, = refresh_all(bs, cond, b, c, ch[2], ch[3], e)
            if not isinstance(v, Poly) or not isinstance(r, Poly) or not isinstance(cl, Poly):
                raise Unsupported("removed candidate %r" % (v,))
            t = Tup([r, cl])
            facts = tuple(f for f in step.facts if not is_pick(f)) + tuple(conj(cond2)) + tuple(conj(c2)) + tuple(domains(bs2)) + tuple(domains(b2)) + tuple(conj(mkin(v, cand(t))))
            vals = (tuple(facts), step.clues, step.values, t, v)
            vs = {x if x.parent is None else x.parent[0] for x in vars_of(vals)} - bound_vars(vals, set())
            mp, vals = digitised(vs, full, *vals)
            yield Removal(tuple(vals[0]), *vals[1:])


def refresh_all(bs, cond, b, c, r, cl, v):
    out = refresh(tuple(bs) + tuple(b), cond, c, r, cl, v)
    allb = out[0]
    return allb[:len(bs)], out[1], allb[len(bs):], out[2], out[3], out[4], out[5]


# ---------------------------------------------------------------- counter-models on small sudokus
def lines_of(w, h, kind, f):
    n = w * h
    r, c = f
    if kind == "row":
        return [(r, j) for j in range(n)]
    if kind == "column":
        return [(i, c) for i in range(n)]
    r0, c0 = r // h * h, c // w * w
    return [(r0 + i, c0 + j) for i in range(h) for j in range(w)]


def bad_naked(w, h, cands, clues, values, t, v):
    if t in clues:
        return "one of its own fields"
    if not any(all(z in lines_of(w, h, k, t) for z in clues) for k in HOUSES):
        return "a field that does not share a house with all its fields"
    u = frozenset().union(*[cands[z] for z in clues])
    if len(u) > len(clues):
        return "although its %d fields have the %d candidates %s" % (len(clues), len(u), sorted(u))
    return None if v in u else "although none of its fields has the candidate"


def bad_hidden(w, h, cands, clues, values, t, v):
    if v in values:
        return "one of its own numbers"
    if not cands[t] & values:
        return "a field with none of its numbers"
    for k in HOUSES:
        if len([z for z in lines_of(w, h, k, t) if cands[z] & values]) <= len(values):
            return None
    return "although its %d numbers occur in more fields of every house of the field" % len(values)


def bad_pointing(w, h, cands, clues, values, t, v):
    if values != {v}:
        return "another candidate than its own"
    if not clues:
        return "without any field of the pattern"
    z = min(clues)
    for line in ("row", "column"):
        for outer, inner in ((line, "box"), ("box", line)):
            o, i = lines_of(w, h, outer, z), lines_of(w, h, inner, z)
            if all(x in o and x in i and v in cands[x] for x in clues) and t in o and t not in i and all(x in o for x in i if v in cands[x]):
                return None
    return "although the candidate is not confined to the intersection of a box and a line through it"


def bad_fish(w, h, cands, clues, values, t, v):
    if values != {v}:
        return "another candidate than its own"
    n = w * h
    for base in (0, 1):
        rows, cols = {z[base] for z in clues}, {z[1 - base] for z in clues}
        at = lambda r, c: (r, c) if base == 0 else (c, r)
        if len(cols) <= len(rows) and all(v in cands[z] for z in clues) and all(c in cols for r in rows for c in range(n) if v in cands[at(r, c)]) \
                and t[1 - base] in cols and t[base] not in rows:
            return None
    return "although no equal number of crossing lines has all its fields with the candidate, or the field lies on none of them"


BAD = {naked: bad_naked, hidden: bad_hidden, pointing: bad_pointing, fish: bad_fish}


def boards(w, h, count, filled=False):
    """Candidates of sudokus in many of which some pattern is present."""
    n = w * h
    fields = [(r, c) for r in range(n) for c in range(n)]
    for k in range(count):
        rnd = random.Random(1000 * w + 100 * h + k)
        full = list(range(1, n + 1))
        how = k % 4
        d = (0.35, 0.5, 0.25, 0.6)[k // 4 % 4]
        pools = {}
        for f in fields:
            if how == 0:
                pools[f] = frozenset(x for x in full if rnd.random() < d)
            elif how == 1:                            # few numbers in most fields of each row, column or box
                size = 2 + k // 4 % max(1, n - 2)
                key = (f[0], f[1], f[0] // h * h + f[1] // w)[k // 4 % 3]
                base = random.Random(repr((k, key))).sample(full, min(n, size))
                pools[f] = frozenset(x for x in (base if rnd.random() < 0.8 else full) if rnd.random() < 0.7)
            elif how == 2:                            # numbers missing in most fields of a row
                keep = random.Random(repr((k, f[0]))).sample(range(n), min(n, 2 + k // 4 % max(1, n - 2)))
                some = random.Random(repr((k, f[0], 1))).sample(full, min(n, 2 + k // 4 % max(1, n - 2)))
                pools[f] = frozenset(x for x in full if (x not in some or f[1] in keep) and rnd.random() < 0.85)
            else:                                     # almost as if all candidates had been calculated
                pools[f] = frozenset(x for x in full if rnd.random() < (0.8 if (x + f[0] // h + f[1] // w + k) % 3 else 0.25))
        grid = {f: rnd.choice(full) for f in fields if (filled or k % 3 == 1) and rnd.random() < 0.3}
        yield grid, pools


class Slow(Exception):
    pass


def assignments(env, vs, facts, deadline):
    """Environments for all values of the variables under which the facts hold."""
    at = [[] for _ in range(len(vs) + 1)]
    for f in facts:
        need = [i + 1 for i, v in enumerate(vs) if v in set(loose(f, set(env.v), []))]
        at[max(need) if need else 0].append(f)
    if not all(env.truth(f) for f in at[0]):
        return

    def go(e, i):
        if time.time() > deadline:
            raise Slow()
        if i == len(vs):
            yield e
            return
        for e2 in e.bind((vs[i],)):
            if all(e2.truth(f) for f in at[i + 1]):
                yield from go(e2, i + 1)
    yield from go(env, 0)


def picked(x, elements, which):
    """Is x the first (the last) of the elements?"""
    if which not in (0, -1) or any(n != 1 for n in elements.values()):
        raise NoValue("which element")
    return not elements or list(elements)[which:][:1] == [x]


def surely(f, positive=True):
    """A formula that implies f (f implies, if not positive) and does not ask whether something happens for the first time."""
    h = f[0]
    if h == "first":
        return F if positive else T
    if h == "not":
        return fnot(surely(f[1], not positive))
    if h in ("and", "or"):
        return (f_and if h == "and" else f_or)(*[surely(g, positive) for g in f[1]])
    if h == "ex":
        return ("ex", f[1], surely(f[2], positive))
    return f


def found_on(w, h, grid, cands, steps, deadline, kind="remove_candidates", more=None):
    """[(clues, values, [(field, number removed)])] of all steps found on one sudoku, suppressed ones included."""
    atoms = board_atoms(grid, cands, "s", more)
    atoms["seen"] = lambda *a: False
    atoms["carried"] = lambda n: n
    atoms["picked"] = picked
    atoms["calculated"] = lambda *a: frozenset()
    e0 = Env(w, h, {}, atoms)
    for s in steps:
        facts = tuple(split_first(f)[0] for f in s.facts)
        if kind != "remove_candidates":
            facts = tuple(surely(f) for f in facts)
        vs = loose((facts, s.clues, s.values), set(e0.v), [])
        fixed = {v for f in facts for g in conj(f) if is_pick(g) for v in vars_of(g[1].args[0])}
        free = vs if kind == "remove_candidates" else loose((facts,), set(e0.v), [])
        if set(free) - set(s.bs) - fixed:
            raise NoValue("values that depend on the order of things")
        for e in assignments(e0, vs, facts, deadline):
            gone = []
            for bs, cond, ch in s.changes:
                if ch[1] != kind:
                    continue
                more = [v for v in loose((bs, cond, ch[2:]), set(e.v) | set(bs), [])]
                for e2 in assignments(e, tuple(more) + tuple(bs), (split_first(cond)[0],), deadline):
                    t = (e2.val(ch[2]), e2.val(ch[3]))
                    if kind != "remove_candidates":
                        gone.append((t, e2.val(ch[4]) if kind == "set_number" else None))
                        continue
                    for v in e2.multi(ch[4]):
                        if v in cands.get(t, ()):
                            gone.append((t, v))
            yield frozenset(e.multi(s.clues)), frozenset(e.multi(s.values)), gone


def counter(steps, bad, seconds, removing=True):
    """A small sudoku on which a step removes a candidate that its pattern does not forbid; None if none was found."""
    deadline = time.time() + seconds
    suppressed = any(mentions(f, lambda a: isinstance(a, Term) and a.op == "seen") for s in steps for f in s.facts)
    try:
        for w, h, count in ((2, 2, 24), (2, 3, 12), (3, 2, 12), (5, 2, 2), (2, 2, 200), (3, 2, 60), (2, 3, 60)):
            for grid, cands in boards(w, h, count):
                seen, wrong = set(), []
                for clues, values, gone in found_on(w, h, grid, cands, steps, deadline):
                    why = bad(w, h, cands, clues, values, gone)
                    if why:
                        wrong.append((clues, values, why))
                    else:
                        seen.add(clues)
                for clues, values, why in wrong:
                    if clues not in seen or not suppressed:
                        return "box size %dx%d, candidates %s%s: step with the fields %s and the numbers %s %s" % (
                            w, h, {f: sorted(c) for f, c in sorted(cands.items())}, ", numbers %s" % grid if grid else "", sorted(clues), sorted(values), why)
    except (NoValue, Slow):
        return None
    return None


def unjustified(check):
    def bad(w, h, cands, clues, values, gone):
        for t, v in gone:
            why = check(w, h, cands, clues, values, t, v)
            if why:
                return "removes %s from %s, %s" % (v, t, why)
        return None
    return bad


def prepared(prog, rep):
    I = Interp(prog)
    I.explicit = True
    I.setup_boards_or(rep)
    for k in CHANGES:
        I.stubs[("sudokutools.sudoku", "Sudoku." + k)] = recorder(k)
    return I


def c12_of(prog, name):
    """(verdict, text, families, removals) for one technique."""
    rep = Report("C12", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    kind = KINDS[name]
    cls = public(I, SOLVERS, name)
    try:
        steps = list(steps_of(I, cls))
    except Unsupported as e:
        return None, "not followed: %s" % e, 0, 0
    n, why = 0, None
    try:
        for s in steps:
            for x in removals(s, kind is pointing):
                n += 1
                why = why or kind(Proof(), x)
                if why:
                    break
    except Unsupported as e:
        why = "not followed: %s" % e
    if why is None and n:
        return True, "%d families of removals rest on the pattern" % n, len(steps), n
    w = counter(steps, unjustified(BAD[kind]), SECONDS)
    if w is not None:
        return False, w, len(steps), n
    return None, why or "no removal found", len(steps), n


def in_parallel(f, prog, names):
    """Results of f(prog, name) for all names, each in its own process."""
    import multiprocessing
    global work
    work = lambda name: f(prog, name)
    if multiprocessing.current_process().daemon:          # itself one of several processes
        return [work(n) for n in names]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(do_work, names, 1)


work = None


def do_work(name):
    fresh_budget()
    try:
        return work(name)
    except AnalysisBroken as e:
        return "broken", str(e), 0, 0
    except Exception as e:                                # a construct the analysis was not written for: no verdict
        if os.environ.get("VERIF_DEBUG"):
            raise
        return None, "%s in the analysis: %s" % (type(e).__name__, e), 0, 0


def c12(prog):
    rep = Report("C12", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    if not I.templates:
        return rep
    only = os.environ.get("VERIF_ONLY")
    names = sorted(KINDS if only is None else [only], key=lambda n: -("Hidden" in n) - len(n))
    for name, (ok, text, families, n) in zip(names, in_parallel(c12_of, prog, names)):
        kind = KINDS[name].__name__
        if ok == "broken":
            raise AnalysisBroken(text)
        f = public(I, SOLVERS, name).find("find")
        rep.count("families of steps", families)
        rep.count("removals examined", n)
        if ok is True:
            rep.holds(kind, name, text)
        elif ok is False:
            rep.violate(kind, name, text, where(I, f) if f else "?")
        else:
            rep.undecided(kind, name, text)
    return rep
