"""Equality of two collections that are made of opaque ones by conditional additions and removals."""
from .lib import *
from sa.logic import free_vars


def same_sets(c1, c2, pc, values):
    """Do two collections hold the same values?  (True | False | None); values: those of interest."""
    if c1 == c2:
        return True
    x = Var("v")
    tests = [mkeq(P(x), v) for v in values]
    for c in (c1, c2):
        for a in closed_atoms(c):
            if a not in tests and len(tests) < 8:
                tests.append(a)
    res = True
    todo = [()]
    for f in tests:
        nxt = []
        for t in todo:
            r = Decider(pc=tuple(pc) + t).decide(f)
            nxt += [t + (f,)] if r is True else [t + (fnot(f),)] if r is False else [t + (f,), t + (fnot(f),)]
        todo = nxt
    for t in todo:
        D = Decider(pc=tuple(pc) + t)
        if D.decide(f_and(*t)) is False:
            continue
        for base in (True, False):
            known = {}
            a, b = [member(c, x, D, base, known) for c in (c1, c2)]
            if contradicts(t, x, D, base, known.get("base")):
                continue
            if a is None or b is None:
                res = None
            elif a != b:
                return False
    return res


def contradicts(t, x, D, base, opaque):
    """Does the case say that x is (not) in the opaque collection against what is assumed?"""
    for g in t:
        neg = g[0] == "not"
        h = g[1] if neg else g
        if h[0] == "in" and h[2] == opaque and D.decide(mkeq(P(x), h[1])) is True and neg == base:
            return True
    return False


def closed_atoms(c):
    """Conditions of the parts of a collection that do not depend on the element."""
    out = []

    def walk(f, bs):
        if f[0] in ("and", "or"):
            for g in f[1]:
                walk(g, bs)
        elif f[0] == "not":
            walk(f[1], bs)
        elif f not in (T, F) and f[0] != "ex" and not (set(bs) & set(free_vars(f))):
            out.append(f)

    def coll(c):
        for o in c.ops if isinstance(c, CollV) else ():
            if o[0] == "all":
                coll(o[1])
            else:
                walk(o[2], o[1])
                for b in o[1]:
                    if b.dom is not None and b.dom[0] == "elem":
                        coll(b.dom[1])
    coll(c)
    return out


def member(c, x, D, base, known):
    """Is x in c, given whether it is in the opaque collection that c is made of?"""
    if isinstance(c, Tup):
        ops = [("+", (), T, y) for y in c.items]
    elif isinstance(c, CollV):
        ops = c.ops
    elif isinstance(c, Term):
        if known.setdefault("base", c) != c:
            return None
        return base
    else:
        return None
    cur = False
    for o in ops:
        if o[0] == "all":
            r = member(o[1], x, D, base, known)
            if r is None:
                return None
            cur = cur or r
            continue
        if o[0] not in "+-":
            return None
        b, cond, e = refresh(o[1], o[2], o[3])
        if len(b) == 1 and e == P(b[0]) and b[0].dom is not None and b[0].dom[0] == "elem":
            r = D.decide(subst(cond, {b[0]: P(x)}))
            if r is not False:
                m = member(b[0].dom[1], x, D, base, known)
                r = False if m is False else r if m else None
        else:
            r = D.decide(mkex(b, f_and(cond, mkeq(e, P(x)))))
        if r is None:
            return None
        if r:
            cur = o[0] == "+"
    return cur
