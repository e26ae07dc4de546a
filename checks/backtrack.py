"""C11: what the solvers leave behind between two alternatives."""
import ast

from .lib import *
from .sets import same_sets
from .search import DLX, Captured, run_dlx
from sa.sym import DictRec, Gen

RULE = ("abstract interpretation of each recursive solver with the recursion replaced by its contract (solutions are handed on, the working state is as before): "
        "on a generic sudoku of every shape whose branching field has two different arbitrary candidates, both are explored, the second from the same state as the "
        "first with the candidates exchanged, the state at the end is the state at the start, and all solutions are yielded; on constraint tables over "
        "uninterpreted names select leaves exactly the compatible choices, deselect undoes it, and every choice of one column is explored in turn")
ASSUME = ["the recursion contract is used as induction hypothesis",
          "tables: choices and constraints are only compared for equality by the code, so that uninterpreted names stand for all of them",
          "standard library functions behave as modelled in sa/symlib.py"]
SOLVE = "sudokutools.solve"
MANY = 25          # solutions below one alternative; any number of them is tried as a family


def generators(I, mod):
    """Generator functions of a module that call themselves."""
    out = []
    for n in I.prog.trees[mod].body:
        if isinstance(n, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n.name for x in ast.walk(n)):
            out.append(n.name)
    return out


# ---------------------------------------------------------------- sudokus
def bruteforce_run(I, rep, name, f, cands):
    field = Field("f")
    st = State()
    b = I.generic_board(st, "s")
    I.bwrite(b, "n", field.tup, ZERO, st)
    I.bwrite(b, "c", field.tup, CollV("frozenset", [("+", (), T, v) for v in cands]), st)
    start = st.fork()
    calls = []

    def again(I, args, kwargs, s, node):
        args = list(args) + list(kwargs.values())
        s2 = s.fork()
        k = sum(1 for e in s.ev if e[0] == "explored")
        calls.append((args, s.fork()))
        s2.ev = s2.ev + (("explored", len(calls) - 1),)
        sols = [I.generic_board(s2, "solution%d-%02d" % (k, x)) for x in range(MANY)]
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, x) for x in sols]), 0))

    def first(I, args, kwargs, s, node):
        yield s, I.newcoll(s, "list", [("+", (), T, field.tup)])

    def least(I, args, kwargs, s, node):
        yield s, field.tup
    res = []
    for s, g in I.call(f, [b], {}, st):
        if isinstance(g, Exc) or not isinstance(I.rec(s, g), Gen):
            raise Unsupported("%s is no generator" % name)
        I.stubs[(SOLVE, name)] = again
        I.stubs["sorted"] = first
        I.stubs["min"] = least
        try:
            for s2, c in I.iterate(g, s):
                if s2.feasible():
                    res.append((s2, c))
        finally:
            I.stubs.clear()
    return b, field, start, calls, res


def no_such_field(pc, field):
    """Is the branching field, which is empty, a counterexample to one of the conditions of the path?"""
    for g in pc:
        if g[0] == "not" and g[1][0] == "ex" and len(g[1][1]) == 2:
            (x, y), body = refresh(g[1][1], g[1][2])
            for r, c in ((x, y), (y, x)):
                if Decider().decide(subst(body, {r: field.row, c: field.col})) is True:
                    return True
    return False


def check_bruteforce(I, rep, name):
    f = public(I, SOLVE, name)
    loc = where(I, f)
    va, vk = Var("a", ONE, N + 1), Var("k", ONE, N)
    a, c = P(va), P(va) + P(vk)
    swap = {va: P(va) + P(vk), vk: -P(vk)}
    b, field, start, calls, res = bruteforce_run(I, rep, name, f, [a, c])
    res = [(s, out) for s, out in res if not no_such_field(s.pc, field)]
    if not res:
        raise Unsupported("no outcome")
    for s, out in res:
        if not real(s.pc):
            if len(res) > 1:
                raise Unsupported("%d outcomes" % len(res))
        check_outcome(I, rep, name, loc, b, field, start, calls, s, out, a, c, swap)


def real(pc):
    """Is there a box shape for which the path is taken?"""
    try:
        for w, h in shapes():
            if w * h > 1 and any(True for _ in worlds(Env(w, h, {}, board_atoms({}, {})), pc)):
                return True
    except NoValue:
        pass
    return False


def check_outcome(I, rep, name, loc, b, field, start, calls, s, out, a, c, swap):
    if isinstance(out, Exc):
        rep.check(None, "state", name, message="%s is raised" % out.name, loc=loc)
        return
    seen = [calls[e[1]] for e in s.ev if e[0] == "explored"]
    con = "%s: alternatives" % name
    if any(b not in args for args, _s in seen):
        raise Unsupported("the recursion works on another sudoku")
    tried = []
    for args, s1 in seen:
        tried.append(I.bread(b, "n", field.tup, s1))
    if sorted(map(repr, tried)) == sorted(map(repr, [a, c])):
        rep.holds("alternatives", con, "both candidates of the branching field are explored")
    elif all(t in (a, c) for t in tried):
        rep.violate("alternatives", con, "of two candidates %d are explored" % len(set(map(repr, tried))), loc)
        return
    else:
        rep.check(None, "alternatives", con, message="numbers tried: %s" % (tried,))
        return
    # ---- solutions handed on
    con = "%s: solutions" % name
    ys = [x for _b, _c, x in I.items_of(out, s)]
    want = MANY * len(seen)
    names = [I.rec(s, x).base if isinstance(x, Ref) and hasattr(I.rec(s, x), "base") else None for x in ys]
    exp = ["solution%d-%02d" % (k, x) for k in range(len(seen)) for x in range(MANY)]
    if any(o[1] or o[2] != T for o in out.ops) or None in names:
        rep.undecided("solutions", con, "what is yielded: %r" % (out,))
    elif sorted(map(str, names)) == exp:
        rep.holds("solutions", con, "all solutions of all alternatives are handed on")
    else:
        rep.violate("solutions", con, "%d solutions are found below the alternatives, %d are handed on" % (want, len(names)), loc)
    # ---- states
    compare(I, rep, "%s: state of the second alternative" % name, loc, b, field, seen[0][1], seen[1][1], (a, c), swap)
    compare(I, rep, "%s: state at the end" % name, loc, b, field, start, s, (a, c), None)
    rep.count("alternatives interpreted", len(seen))


def compare(I, rep, con, loc, b, field, s1, s2, vals, swap):
    """Are all fields the same in both states (with the two candidates exchanged)?"""
    unknown = None
    for same in FIELDCLASSES:
        if same_field(same) and swap:
            continue
        t, facts = field.target(same)
        for kind, what in (("n", "number"), ("c", "candidates")):
            x, y = I.bread(b, kind, t.tup, s1.fork(*facts)), I.bread(b, kind, t.tup, s2.fork(*facts))
            if swap:
                x = subst(x, swap)
            pc = tuple(s1.pc) + tuple(facts)
            if kind == "n":
                d = Decider(pc=pc).decide(mkeq(x, y))
            else:
                d = same_sets(x, y, pc, list(vals)) if isinstance(x, (CollV, Tup)) and isinstance(y, (CollV, Tup)) else None
            rep.count("field states compared")
            if d is False:
                rep.violate("state", con, "%s of %s: %r before, %r afterwards" % (what, digit_name(same), x, y), loc)
                return
            if d is None:
                unknown = "%s of %s: %r and %r" % (what, digit_name(same), x, y)
    if unknown:
        rep.undecided("state", con, unknown)
    else:
        rep.holds("state", con, "the same for all 16 classes of fields")


# ---------------------------------------------------------------- exact cover
TABLES = [
    [("p", "ab"), ("q", "bc"), ("r", "cd"), ("t", "ad"), ("u", "a")],
    [("p", "abc"), ("q", "ade"), ("r", "bdf"), ("t", "cef"), ("u", "def"), ("v", "abc")],
    [("p", "ab"), ("q", "ab"), ("r", "ab"), ("t", "cd"), ("u", "dc")],
    [("p", "abcd"), ("q", "efgh"), ("r", "aebf"), ("t", "cgdh"), ("u", "hbcf")],
    [("p", "a")],
]


def new_table(I, st, kind, entries):
    """A dict of collections of names; the collections are objects of their own."""
    return I.new(st, DictRec([("set", (), T, K(k), I.newcoll(st, kind, [("+", (), T, K(x)) for x in v])) for k, v in entries], None, "table"))


def table(I, st, rows):
    keys = []
    for r, ks in rows:
        keys.extend(k for k in ks if k not in keys)
    xs = [(k, [r for r, ks in rows if k in ks]) for k in keys]
    return new_table(I, st, "set", xs), new_table(I, st, "list", rows), {k: set(v) for k, v in xs}


def contents(I, s, d):
    """{name: set of names} of a table over names."""
    r = I.rec(s, d)
    if not isinstance(r, DictRec):
        raise Unsupported("table")
    out = {}
    keys = []
    for o in r.ops:
        if o[0] in ("set", "del"):
            if o[1] or o[2] != T or not isinstance(o[3], K):
                raise Unsupported("table entry")
            if o[0] == "del" and o[3] in keys:
                keys.remove(o[3])
            elif o[0] == "set" and o[3] not in keys:
                keys.append(o[3])
    for k in keys:
        out[k.v] = set(names_of(I, s, [o[4] for o in r.ops if o[3] == k][-1]))
    return out


def names_of(I, s, v):
    c = I.coll(v, s)
    if isinstance(c, Tup):
        ops = [("+", (), T, x) for x in c.items]
    else:
        ops = c.ops
    cur = []
    for o in ops:
        if o[0] not in ("+", "-", "-1") or o[1] or o[2] != T or not isinstance(o[3], K):
            raise Unsupported("list of choices")
        if o[0] == "+" and not (o[3].v in cur and c.kind in ("set", "frozenset")):
            cur.append(o[3].v)
        elif o[0] != "+" and o[3].v in cur:
            cur.remove(o[3].v)
    return cur


def after_select(x, rows, r):
    ks = dict(rows)[r]
    clash = set(q for q, qs in rows if set(qs) & set(ks))
    return {k: v - clash for k, v in x.items() if k not in ks}


def single(I, outs, what):
    outs = [(s, v) for s, v in outs if s.feasible()]
    if len(outs) != 1:
        raise Unsupported("%s: %d outcomes" % (what, len(outs)))
    return outs[0]


def check_select(I, rep):
    sel, desel = public(I, DLX, "select"), public(I, DLX, "deselect")
    con = "dlx.select"
    for rows in TABLES:
        for r, ks in rows:
            st = State()
            X, Y, x = table(I, st, rows)
            s, cols = single(I, I.call(sel, [X, Y, K(r)], {}, st), "select")
            rep.count("selections interpreted")
            if isinstance(cols, Exc):
                rep.violate("select", con, "%s when selecting a choice that is possible" % cols.name, where(I, sel))
                return
            got = contents(I, s, X)
            want = after_select(x, rows, r)
            if got != want:
                k = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[0]
                rep.violate("select", con, "after selecting %s in %s: constraint %s has %s instead of %s" % (
                    r, dict(rows), k, sorted(got[k]) if k in got else "gone", sorted(want[k]) if k in want else "gone"), where(I, sel))
                return
            # a clashing choice is refused
            for q, qs in rows:
                if set(qs) & set(ks):
                    s2, v = single(I, I.call(sel, [X, Y, K(q)], {}, s.fork()), "select")
                    if not (isinstance(v, Exc) and v.name == "KeyError"):
                        rep.violate("select", con, "%s can be selected after %s, which meets the same constraint" % (q, r), where(I, sel))
                        return
            s3, v = single(I, I.call(desel, [X, Y, K(r), cols], {}, s.fork()), "deselect")
            if isinstance(v, Exc):
                rep.violate("deselect", "dlx.deselect", "%s after select" % v.name, where(I, desel))
                return
            got = contents(I, s3, X)
            if got != x:
                k = sorted(k for k in set(got) | set(x) if got.get(k) != x.get(k))[0]
                rep.violate("deselect", "dlx.deselect", "after selecting and deselecting %s in %s: constraint %s has %s instead of %s" % (
                    r, dict(rows), k, sorted(got[k]) if k in got else "gone", sorted(x[k]) if k in x else "gone"), where(I, desel))
                return
            # selecting two and taking them back in reverse order
            for q, qs in rows:
                if set(qs) & set(ks):
                    continue
                s4, cols2 = single(I, I.call(sel, [X, Y, K(q)], {}, s.fork()), "select")
                if isinstance(cols2, Exc):
                    rep.violate("select", con, "%s when selecting %s after %s, which does not clash" % (cols2.name, q, r), where(I, sel))
                    return
                s5, v = single(I, I.call(desel, [X, Y, K(q), cols2], {}, s4), "deselect")
                if isinstance(v, Exc) or contents(I, s5, X) != want:
                    rep.violate("deselect", "dlx.deselect", "deselecting %s after %s does not restore the table" % (q, r), where(I, desel))
                    return
            s6, v = single(I, I.call(sel, [X, Y, K("unknown")], {}, s.fork()), "select")
            if not (isinstance(v, Exc) and v.name == "KeyError"):
                rep.violate("select", con, "something that is no choice can be selected", where(I, sel))
                return
    rep.holds("select", con, "removes the met constraints and exactly the clashing choices; refuses clashing choices with KeyError")
    rep.holds("deselect", "dlx.deselect", "restores the table")


def any_number(I, rep, f, name, loc):
    """Are any number of solutions handed on?"""
    rows = TABLES[0]
    con = "dlx.%s: any number of solutions" % name
    st = State()
    X, Y, x = table(I, st, rows)
    sol = I.newcoll(st, "list", [])
    many = Var("many", ZERO)

    def again(I, args, kwargs, s, node):
        s2 = s.fork()
        k = sum(1 for e in s2.ev if e[0] == "explored")
        s2.ev = s2.ev + (("explored", k),)
        i = Var("i", ZERO, P(many))
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (i,), T, P(Term("below", P(k), P(i))))]), 0))
    try:
        res = []
        for s, g in I.call(f, [X, Y, sol], {}, st):
            I.stubs[(DLX, name)] = again
            try:
                res.extend((s2, c) for s2, c in I.iterate(g, s) if s2.feasible())
            finally:
                I.stubs.clear()
        s, out = single(I, res, name)
    except Unsupported as e:
        rep.undecided("solutions", con, "no transfer function: %s" % e)
        return
    calls = sum(1 for e in s.ev if e[0] == "explored")
    good = isinstance(out, CollV) and len(out.ops) == calls
    for k, o in enumerate(out.ops if good else ()):
        good = good and o[0] == "+" and len(o[1]) == 1 and o[2] == T and o[1][0].lo == ZERO and o[1][0].hi == P(many) and \
            o[3] == P(Term("below", P(k), P(o[1][0])))
    rep.check(True if good else None, "solutions", con, message="what is handed on: %r" % (out,), loc=loc, detail="all of them")


def check_cover(I, rep, name):
    f = public(I, DLX, name)
    loc = where(I, f)
    for rows, earlier in [(rows, e) for rows in TABLES for e in (["earlier"], [])]:
        st = State()
        X, Y, x = table(I, st, rows)
        sol = I.newcoll(st, "list", [("+", (), T, K(x)) for x in earlier])
        calls = []

        def again(I, args, kwargs, s, node):
            args = list(args) + list(kwargs.values())
            s2 = s.fork()
            calls.append((args, s.fork()))
            s2.ev = s2.ev + (("explored", len(calls) - 1),)
            k = sum(1 for e in s2.ev if e[0] == "explored")
            yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, K("below%d-%d" % (k, z))) for z in range(MANY)]), 0))
        res = []
        for s, g in I.call(f, [X, Y, sol], {}, st):
            if isinstance(g, Exc) or not isinstance(I.rec(s, g), Gen):
                raise Unsupported("%s is no generator" % name)
            I.stubs[(DLX, name)] = again
            try:
                res.extend((s2, c) for s2, c in I.iterate(g, s) if s2.feasible())
            finally:
                I.stubs.clear()
        s, out = single(I, res, name)
        if isinstance(out, Exc):
            rep.violate("alternatives", "dlx.%s" % name, "%s is raised" % out.name, loc)
            return
        seen = [calls[e[1]] for e in s.ev if e[0] == "explored"]
        tried = []
        for args, s1 in seen:
            if args[0] != X or args[1] != Y:
                raise Unsupported("the recursion works on other tables")
            path = names_of(I, s1, args[2])
            if path[:-1] != earlier or not path:
                rep.violate("state", "dlx.%s" % name, "the list of chosen rows is %s when the next alternative is explored" % path, loc)
                return
            tried.append(path[-1])
            if contents(I, s1, X) != after_select(x, rows, path[-1]):
                rep.violate("state", "dlx.%s" % name, "table %s: the table is %s when %s is explored instead of %s" % (
                    dict(rows), contents(I, s1, X), path[-1], after_select(x, rows, path[-1])), loc)
                return
        rep.count("alternatives interpreted", len(seen))
        if sorted(tried) not in [sorted(v) for v in x.values()]:
            rep.violate("alternatives", "dlx.%s" % name, "in %s the alternatives %s are explored; they are not those of one constraint" % (dict(rows), tried), loc)
            return
        if contents(I, s, X) != x:
            rep.violate("state", "dlx.%s" % name, "the table is not restored at the end", loc)
            return
        if names_of(I, s, sol) != earlier:
            rep.violate("state", "dlx.%s" % name, "the list of chosen rows is not restored at the end", loc)
            return
        got = names_of(I, s, out)
        want = ["below%d-%d" % (k + 1, z) for k in range(len(seen)) for z in range(MANY)]
        if sorted(got) != sorted(want):
            rep.violate("solutions", "dlx.%s" % name, "%d solutions are found below the alternatives, %d are handed on" % (len(want), len(got)), loc)
            return
    rep.holds("alternatives", "dlx.%s" % name, "every choice of one constraint is explored")
    rep.holds("state", "dlx.%s" % name, "every alternative starts from the same table, which is restored at the end")
    rep.holds("solutions", "dlx.%s" % name, "all solutions are handed on")
    any_number(I, rep, f, name, loc)
    # ---- nothing left to choose, and a constraint without choices
    for x0, want in (({}, 1), ({"a": set()}, 0), ({"a": set(), "b": set("q")}, 0)):
        st = State()
        X = new_table(I, st, "set", [(k, sorted(v)) for k, v in sorted(x0.items())])
        Y = new_table(I, st, "list", [("q", "b")])
        sol = I.newcoll(st, "list", [("+", (), T, K("p")), ("+", (), T, K("r"))])
        con = "dlx.%s: %s" % (name, "complete cover" if want else "unmeetable constraint")
        s, out = single(I, [(s2, c) for s, g in I.call(f, [X, Y, sol], {}, st) for s2, c in I.iterate(g, s)], name)
        its = [] if isinstance(out, Exc) else I.items_of(out, s)
        ok = not isinstance(out, Exc) and len(its) == want and all(sorted(names_of(I, s, y)) == ["p", "r"] for _b, _c, y in its)
        rep.check(ok, "solutions", con, message="yields %s instead of %s" % ([names_of(I, s, y) for _b, _c, y in its], "nothing" if not want else "the chosen rows"), loc=loc, detail="yields %d" % want)


# ---------------------------------------------------------------- the public functions
def check_public(I, rep, inner):
    """bruteforce and dlx hand on all the solutions that are found."""
    con = "bruteforce: solutions"
    f = public(I, SOLVE, "bruteforce")
    st = State()
    b = I.generic_board(st, "s")

    def search(I, args, kwargs, s, node):
        s2 = s.fork()
        s2.ev = s2.ev + (("explored", 0),)
        sols = [I.generic_board(s2, "solution" + x) for x in "ab"]
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, x) for x in sols]), 0))
    for name in inner:
        I.stubs[(SOLVE, name)] = search
    try:
        outs = outcomes(I, f, [b], {}, st)
    finally:
        I.stubs.clear()
    count_yields(I, rep, con, [(s, v) for s, v in outs if any(e[0] == "explored" for e in s.ev)], where(I, f))
    con = "dlx: solutions"
    f = public(I, SOLVE, "dlx")
    cap = Captured()
    _b, outs = run_dlx(I, cap, times=2)
    if cap.state is None:
        raise Unsupported("the search is not reached")
    outs = [(s, v) for s, v in outs if isinstance(v, Exc) or I.items_of(v, s)]
    count_yields(I, rep, con, outs, where(I, f))


def count_yields(I, rep, con, outs, loc):
    if not outs:
        rep.undecided("solutions", con, "the search is not reached")
        return
    for s, v in outs:
        if isinstance(v, Exc):
            rep.check(None, "solutions", con, message="%s is raised" % v.name, loc=loc)
            return
        its = I.items_of(v, s)
        if any(bs or c != T for bs, c, _x in its):
            rep.undecided("solutions", con, "conditional solutions")
            return
        if len(its) != 2:
            rep.violate("solutions", con, "of two solutions that the search finds %d are handed on" % len(its), loc)
            return
    rep.holds("solutions", con, "every solution that the search finds is handed on")


def c11(prog):
    rep = Report("C11", prog, RULE, ASSUME)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if I.templates:
        gens = generators(I, SOLVE)
        if not gens:
            rep.undecided("alternatives", "bruteforce", "no recursive search found")
        for name in gens:
            guarded(rep, name, lambda: check_bruteforce(I, rep, name))
        if gens:
            guarded(rep, "solutions", lambda: check_public(I, rep, gens))
    guarded(rep, "dlx.select", lambda: check_select(I, rep))
    gens = generators(I, DLX)
    if not gens:
        rep.undecided("alternatives", "dlx", "no recursive search found")
    for name in gens:
        guarded(rep, "dlx." + name, lambda: check_cover(I, rep, name))
    rep.count("functions interpreted", len(set(I.calls)))
    return rep


def guarded(rep, what, go):
    try:
        go()
    except Unsupported as e:
        rep.undecided("search", what, "no transfer function: %s" % e)
    except AnalysisBroken as e:
        rep.undecided("search", what, str(e))
