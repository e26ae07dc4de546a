"""C10 and C11: the constraints of the fast solver, and what both solvers leave behind between two alternatives."""
from itertools import permutations

from .lib import *
from sa.sym import Coll, DictRec, Gen, SlotRef

DLX = "sudokutools.dlx"
RULE10 = ("abstract interpretation of dlx() on a generic sudoku of every box shape with the search itself (dlx.select, dlx.solve) replaced by recorders: "
          "in the table handed to the search two choices (field, number) share a constraint in exactly the 16 x 2 classes of digit equalities in which "
          "they share the field, or the number and a row, column or box; every constraint is met by some choice; every given is selected before "
          "the search; a KeyError of select ends the search; the numbers of a solution are written to their fields")
HOUSES = (("the field", lambda s, n: same_field(s)), ("the number in the row", lambda s, n: same_row(s) and n),
          ("the number in the column", lambda s, n: same_col(s) and n), ("the number in the box", lambda s, n: same_box(s) and n))
A10 = A04 + ["dlx.select(X, Y, choice) imposes a choice and dlx.solve(X, Y, chosen) enumerates the exact covers (their code is decided by C11)"]


class Captured(object):
    def __init__(self):
        self.tables, self.keys, self.state, self.runs = [], [], None, []


def chosen_solution(order):
    f = Field("k")
    n = P(Term("chosen", f.row, f.col))
    return CollV("list", [("+", f.digits(), T, Tup(order(f.row, f.col, n)))]), f


def without(I, s, X, keys):
    """Table X after the constraints `keys` were removed."""
    c = I.slot_value(keys, s) if isinstance(keys, SlotRef) else I.coll(keys, s)
    ops = [((), T, x) for x in c.items] if isinstance(c, Tup) else [(o[1], o[2], o[3]) for o in c.ops]
    if not isinstance(c, Tup) and any(o[0] != "+" for o in c.ops):
        raise Unsupported("constraints of a choice")
    d = I.rec(s, X)
    s.heap[X.id] = DictRec(d.ops + tuple(("del",) + refresh(*o) for o in ops), d.default, d.kind)


def run_dlx(I, cap, bad=False, order=None, times=1, removing=False):
    """Outcomes [(state, yielded collection)] of dlx(generic sudoku) with select and solve replaced."""
    st = State()
    b = cap.sudoku = I.generic_board(st, "s")
    ghost = I.newcoll(st, "list", [])
    cap.start = st.fork()

    def select(I, args, kwargs, s, node):
        args = list(args) + [kwargs[k] for k in kwargs]
        s2 = s.fork()
        r = s2.heap[ghost.id]
        s2.heap[ghost.id] = Coll("list", r.ops + (("+", (), T, args[2]),))
        cap.tables.append((args[0], args[1]))
        if bad:
            yield s2, Exc("KeyError", (args[2],), node)
        elif removing:
            for s3, keys in I.dict_get(args[1], args[2], s2):
                if not isinstance(keys, Exc):
                    without(I, s3, args[0], keys)
                    yield s3, I.newcoll(s3, "list", [])
        else:
            yield s2, I.newcoll(s2, "list", [])

    def solve(I, args, kwargs, s, node):
        args = list(args) + [kwargs[k] for k in kwargs]
        cap.tables.append((args[0], args[1]))
        cap.state = s
        cap.keys = list(I.plain(ghost, s).ops)
        run = Captured()
        run.tables, run.state, run.keys, run.sudoku, run.start = [(args[0], args[1])], s, cap.keys, b, cap.start
        cap.runs.append(run)
        s2 = s.fork()
        sol, _f = chosen_solution(order or (lambda r, c, n: (r, c, n)))
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, sol)] * times), 0))
    I.stubs[(DLX, "select")] = select
    I.stubs[(DLX, "solve")] = solve
    try:
        outs = outcomes(I, public(I, "sudokutools.solve", "dlx"), [b], {}, st)
    finally:
        I.stubs.clear()
    return b, outs


def lookup(I, s, d, key):
    """[(state, CollV | Exc)]: d[key] with the contents of a stored collection."""
    out = []
    for s2, v in I.dict_get(d, key, s):
        if not s2.feasible():
            continue
        if isinstance(v, SlotRef):
            v = I.slot_value(v, s2)
        elif not isinstance(v, Exc):
            v = I.coll(v, s2)
        out.append((s2, v))
    return out


def one(I, s, d, key, what):
    outs = lookup(I, s, d, key)
    if len(outs) != 1:
        raise Unsupported("%s: %d outcomes" % (what, len(outs)))
    return outs[0]


def flat_keys(v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, CollV) and all(o[0] == "+" and not o[1] and o[2] == T for o in v.ops):
        return [o[3] for o in v.ops]
    raise Unsupported("constraints of a choice: %r" % (v,))


def numbers_var(name):
    return Var(name, ONE, N + 1)


def check_givens(I, rep, cap, b, order_found, loc):
    """Which tuple stands for (field, number), and is every given selected?"""
    f = Field("g")
    num = I.bread(b, "n", f.tup, cap.state)
    best = None
    for perm in permutations(range(3)):
        parts = (f.row, f.col, num)
        key = Tup([parts[i] for i in perm])
        res = selected(I, cap, key, num)
        if res[0] is True:
            order_found.append(lambda r, c, n, perm=perm: tuple((r, c, n)[i] for i in perm))
            break
        if best is None:
            best = res
    if not order_found:
        rep.check(best[0], "givens", "dlx: given numbers", message=best[1], loc=loc)
        order_found.append(lambda r, c, n: (r, c, n))
        return
    rep.holds("givens", "dlx: given numbers", "selected for every filled field before the search starts")
    # nothing else is selected: an empty field
    order = order_found[0]
    n = Var("n")
    key = Tup(order(f.row, f.col, P(n)))
    D = Decider(pc=tuple(cap.state.pc) + (mkeq(num, ZERO),))
    r = D.decide(exists_key(cap, key))
    r2 = [Decider(pc=tuple(cap.state.pc) + (fnot(mkeq(num, P(n))), g)).decide(exists_key(cap, key)) for g in (mkeq(num, ZERO), fnot(mkeq(num, ZERO)))]
    r2 = True if True in r2 else None if None in r2 else False
    bad = [w for w, x in (("for an empty field", r), ("with another number", r2)) if x is True]
    unk = [w for w, x in (("for an empty field", r), ("with another number", r2)) if x is None]
    if bad:
        rep.violate("givens", "dlx: other choices", "a choice is selected %s" % bad[0], loc)
    elif unk:
        rep.undecided("givens", "dlx: other choices", "a choice selected %s not excluded" % unk[0])
    else:
        rep.holds("givens", "dlx: other choices", "only given numbers are selected")


def check_earlier(I, rep, order, loc):
    """Is every given selected, whatever was selected before?"""
    cap = Captured()
    con = "dlx: given after another"
    run_dlx(I, cap, removing=True)
    if cap.state is None:
        raise Unsupported("the search is not reached")
    f = Field("g")
    num = I.bread(cap.sudoku, "n", f.tup, cap.state)
    facts = (fnot(mklt(num - 1)), mklt(num - N - 1))          # an impossible given is not selected at all
    if selected(I, cap, Tup(order(f.row, f.col, num)), num, facts)[0] is True:
        rep.holds("givens", con, "selected whatever was selected before")
        return
    w = refute_earlier(I, cap, order)
    rep.check(False if w else None, "givens", con, message=w or "selection of a given may depend on the earlier ones", loc=loc)


def refute_earlier(I, cap, order):
    """Two givens of which the second is not selected although the search starts."""
    X, Y = cap.tables[0]
    try:
        for w, h in SMALL:
            n = w * h
            y = concrete(Env(w, h, {}), I.rec(cap.start, Y).ops if Y.id in cap.start.heap else I.rec(cap.state, Y).ops)
            fields = [(r, c) for r in range(n) for c in range(n)]
            for i, f1 in enumerate(fields):
                for f2 in fields[i + 1:]:
                    for n1, n2 in ((1, 1), (n, n), (1, 2)):
                        ch1, ch2 = [tuple(order(f[0], f[1], m)) for f, m in ((f1, n1), (f2, n2))]
                        atoms = board_atoms({f1: n1, f2: n2}, {})
                        gone = set(y[ch1])
                        key1, key2 = [exists_key(cap, Tup([P(x) for x in ch])) for ch in (ch1, ch2)]
                        if not any(True for _ in worlds(Env(w, h, {}, atoms), cap.state.pc)):
                            continue
                        if not Env(w, h, {}, dict(atoms, carried=lambda c: c)).truth(key1):
                            continue
                        if not Env(w, h, {}, dict(atoms, carried=lambda c: {k: v for k, v in c.items() if k not in gone})).truth(key2):
                            return "box size %dx%d: after %d in %s is selected, the given %d in %s is not selected" % (w, h, n1, f1, n2, f2)
    except (NoValue, KeyError, TypeError):
        return None
    return None


def exists_key(cap, key):
    alts = []
    for o in cap.keys:
        if o[0] != "+":
            raise Unsupported("record of selected choices")
        bs, cond, e = refresh(o[1], o[2], o[3])
        alts.append(mkex(bs, f_and(cond, mkeq(e, key))))
    return f_or(*alts)


def selected(I, cap, key, num, facts=()):
    D = Decider(pc=tuple(cap.state.pc) + (fnot(mkeq(num, ZERO)),) + tuple(facts))
    r = D.decide(exists_key(cap, key))
    if r is None:
        for extra, what in ((mkeq(num, ONE), "1"), (mkeq(num, N), "the largest number")):
            if Decider(pc=tuple(cap.state.pc) + (extra,)).decide(exists_key(cap, key)) is False:
                return False, "a given %s is not selected" % what
    return r, "a given number is not selected as (row, column, number) before the search: %s" % ([show(o[2]) + " " + repr(o[3]) for o in cap.keys],)


def check_table(I, rep, cap, order, loc):
    X, Y = cap.tables[0]
    s = cap.state
    before = len(rep.undec), len(rep.viol)
    try:
        prove_table(I, rep, X, Y, s, order, loc)
    except Unsupported as e:
        rep.undecided("table", "dlx", "no transfer function: %s" % e)
    if len(rep.undec) > before[0] and len(rep.viol) == before[1]:
        w = refute_table(I, s, X, Y, order)
        if w:
            rep.violate("table", "dlx: table", w, loc)


def prove_table(I, rep, X, Y, s, order, loc):
    if not all(isinstance(d, Ref) and isinstance(I.rec(s, d), DictRec) for d in (X, Y)):
        raise Unsupported("tables are no dicts")
    # ---- choices
    f = Field("a")
    n = numbers_var("n")
    ch = Tup(order(f.row, f.col, P(n)))
    s1, keys = one(I, s, Y, ch, "constraints of a choice")
    if isinstance(keys, Exc):
        rep.violate("choices", "dlx: choices", "not every number 1..n of every field is a choice", loc)
        return
    keys = flat_keys(keys)
    rep.holds("choices", "dlx: choices", "every field and number has the constraints %s" % keys)
    for what, m in (("0", ZERO), ("below 0", -P(Var("k", ONE, None))), ("above the largest number", N + P(Var("k", ONE, None)))):
        con = "dlx: number %s" % what
        outs = lookup(I, s, Y, Tup(order(f.row, f.col, m)))
        ok = all(isinstance(v, Exc) and v.name == "KeyError" for _s, v in outs)
        if ok:
            rep.holds("choices", con, "no choice: KeyError")
        else:
            rep.check(False if len(outs) == 1 else None, "choices", con, message="is a choice of a field", loc=loc)
    # ---- shared constraints
    tables = {}
    found = {}
    con = "dlx: constraints"
    for same in FIELDCLASSES:
        t, facts = f.target(same)
        for samen in (True, False):
            m = n if samen else numbers_var("m")
            fs = list(facts) + ([] if samen else [fnot(mkeqp(P(m) - P(n)))])
            s2 = s.fork(*fs)
            _s, other = one(I, s2, Y, Tup(order(t.row, t.col, P(m))), "constraints of another choice")
            if isinstance(other, Exc):
                raise Unsupported("a choice is missing")
            other = flat_keys(other)
            D = Decider(pc=tuple(s2.pc))
            for i, k in enumerate(keys):
                r = [D.decide(mkeq(k, k2)) for k2 in other]
                v = True if True in r else None if None in r else False
                tables.setdefault(i, []).append((same, samen, v, t, m, fs))
            rep.count("pairs of choices compared")
    good = True
    for i, k in enumerate(keys):
        rows = tables[i]
        fit = [name for name, want in HOUSES if all(v == want(same, sn) for same, sn, v, *_ in rows)]
        if fit:
            found[fit[0]] = k
            continue
        good = False
        if any(v is None for _s, _n, v, *_ in rows):
            rep.undecided("constraints", con, "who shares %s is not decided" % (k,))
        else:
            near = min(HOUSES, key=lambda h: sum(v != h[1](same, sn) for same, sn, v, *_ in rows))
            for same, sn, v, *_ in rows:
                if v != near[1](same, sn):
                    rep.violate("constraints", con, "constraint %s is %s by %s with %s number; it is no house of the sudoku" % (
                        k, "shared" if v else "not shared", digit_name(same), "the same" if sn else "another"), loc)
                    return
    if good:
        missing = [name for name, _w in HOUSES if name not in found]
        if missing:
            rep.violate("constraints", con, "nothing makes sure that %s occurs only once" % missing[0], loc)
            return
        rep.holds("constraints", con, "; ".join("%s: %s" % (k, v) for k, v in sorted(found.items())))
    # ---- the columns
    for name, k in sorted(found.items()):
        con = "dlx: column for %s" % name
        want = dict(HOUSES)[name]
        s3, col = one(I, s, X, k, "column of a constraint")
        if isinstance(col, Exc):
            rep.violate("columns", con, "the search does not know the constraint %s" % (k,), loc)
            continue
        unknown = None
        wrong = None
        for same, samen, _v, t, m, fs in tables[0]:
            x = Tup(order(t.row, t.col, P(m)))
            q = mult(col, x, Decider(pc=tuple(s3.pc) + tuple(fs)))
            rep.count("column memberships")
            if q is None:
                unknown = "%s in %r" % (digit_name(same), col)
            elif bool(q) != bool(want(same, samen)):
                wrong = "%s with %s number %s the column" % (digit_name(same), "the same" if samen else "another", "are in" if q else "are missing in")
        if wrong:
            rep.violate("columns", con, wrong, loc)
        elif unknown:
            rep.undecided("columns", con, unknown)
        else:
            rep.holds("columns", con, "holds exactly the choices that meet the constraint")
    # ---- no constraint without a choice
    r = I.rec(s, X)
    fy = Field("y")
    ny = numbers_var("ny")
    for o in r.ops:
        if o[0] == "aug":
            continue
        con = "dlx: constraint %s" % (o[3],)
        if o[0] != "set":
            rep.undecided("columns", con, "table changed by %s" % o[0])
            continue
        bs, cond, key = refresh(o[1], o[2], o[3])
        _s, ks = one(I, s, Y, Tup(order(fy.row, fy.col, P(ny))), "constraints of a choice")
        met = f_or(*[mkeq(k, key) for k in flat_keys(ks)])
        D = Decider(pc=tuple(s.pc) + (cond,))
        d = D.decide(mkex(fy.digits() + (ny,), met))
        if d is not True:
            d = True if d is None and witness_choice(tuple(s.pc) + (cond,), fy, ny, bs, met) else d
        rep.check(d, "columns", con, message="a constraint that no choice can meet: %s" % (key,), loc=loc, detail="met by some choice")


def witness_choice(pc, fy, ny, bs, met):
    """Explicit choices: a box number b = H*x + y is met in the field (H*x, W*y)."""
    if len(bs) != 2:
        return False
    b, n = bs
    if b.lo != ZERO or b.hi != N:
        return False
    x, y = Var("x", ZERO, PW), Var("y", ZERO, PH)
    g = subst(met, {b: PH * P(x) + P(y), fy.bR: P(x), fy.pR: ZERO, fy.bC: P(y), fy.pC: ZERO, ny: P(n)})
    return Decider(pc=pc).decide(g) is True


def concrete(e, ops):
    """{key: set of elements} of a table on one small shape."""
    d = {}
    for o in ops:
        if o[0] == "set":
            for x in e.multi(CollV("list", [("+", o[1], o[2], Tup([o[3], K("set")]))])):
                d[x[0]] = None
            vals = o[4].items if isinstance(o[4], Tup) else None
            if vals is None:
                if not isinstance(o[4], CollV):
                    raise NoValue("stored value")
                if any(x[0] != "+" for x in o[4].ops):
                    raise NoValue("stored value")
                parts = [(x[1], x[2], x[3]) for x in o[4].ops]
            else:
                parts = [((), T, x) for x in vals]
            for x in e.multi(CollV("list", [("+", o[1], o[2], Tup([o[3], K("set")]))])):
                d[x[0]] = []
            for bs, cond, el in parts:
                for x in e.multi(CollV("list", [("+", tuple(o[1]) + tuple(bs), f_and(o[2], cond), Tup([o[3], el]))])):
                    d[x[0]].append(x[1])
        elif o[0] == "aug" and o[4] in "+-":
            for x in e.multi(CollV("list", [("+", o[1], o[2], Tup([o[3], o[5]]))])):
                if x[0] not in d:
                    raise NoValue("key")
                if o[4] == "+":
                    d[x[0]].append(x[1])
                elif x[1] in d[x[0]]:
                    d[x[0]].remove(x[1])
        else:
            raise NoValue(o[0])
    return d


def refute_table(I, s, X, Y, order):
    """What is wrong with the table of a small box shape."""
    try:
        for w, h in shapes():
            n = w * h
            if n > 6:
                continue
            name = "box size %dx%d: " % (w, h)
            e = Env(w, h, {})
            if not any(True for _ in worlds(Env(w, h, {}, board_atoms({}, {})), s.pc)):
                continue
            y = concrete(e, I.rec(s, Y).ops)
            x = concrete(e, I.rec(s, X).ops)
            choices = dict((tuple(order(r, c, m)), (r, c, m)) for r in range(n) for c in range(n) for m in range(1, n + 1))
            if set(y) != set(choices):
                odd = sorted(set(y) ^ set(choices))[0]
                return name + "%s is %s choice" % (odd, "a" if odd in y else "no")
            cols = {}
            for ch, ks in y.items():
                for k in ks:
                    cols.setdefault(k, set()).add(choices[ch])
            houses = {}
            for r, c, m in choices.values():
                houses.setdefault(("field", r, c), set()).add((r, c, m))
                houses.setdefault(("row", r, m), set()).add((r, c, m))
                houses.setdefault(("column", c, m), set()).add((r, c, m))
                houses.setdefault(("box", r // h, c // w, m), set()).add((r, c, m))
            for k in sorted(cols, key=repr):
                if cols[k] not in houses.values():
                    return name + "constraint %s is met by %s, that is no house" % (k, sorted(cols[k])[:8])
            for k in sorted(houses, key=repr):
                if houses[k] not in cols.values():
                    return name + "nothing makes sure that %s %s holds a number once" % (k[0], k[1:])
            if set(x) != set(cols):
                odd = sorted(set(x) ^ set(cols), key=repr)[0]
                return name + "constraint %s %s" % (odd, "can be met by no choice" if odd in x else "is unknown to the search")
            for k in sorted(cols, key=repr):
                got = set(choices[c] for c in x[k])
                if got != cols[k]:
                    return name + "the search misses or adds choices %s of constraint %s" % (sorted(got ^ cols[k])[:4], k)
    except (NoValue, KeyError, TypeError):
        return None
    return None


def check_results(I, rep, order, loc):
    cap = Captured()
    b, outs = run_dlx(I, cap, order=order)
    con = "dlx: solution"
    f = Field("q")
    want = P(Term("chosen", f.row, f.col))
    n = 0
    for s, v in outs:
        if isinstance(v, Exc):
            rep.check(None, "solutions", con, message="%s is raised" % v.name, loc=loc)
            return
        its = I.items_of(v, s)
        if len(its) != 1 or its[0][0] or its[0][1] != T:
            if not its and Decider(pc=tuple(s.pc)).decide(f_and(*s.pc)) is True:
                rep.violate("solutions", con, "a solution of the search is not passed on", loc)
            else:
                rep.undecided("solutions", con, "results %r" % (v,))
            return
        x = its[0][2]
        got = I.bread(x, "n", f.tup, s)
        d = Decider(pc=tuple(s.pc)).decide(mkeq(got, want))
        if d is not True:
            w = wrong_number(got, f)
            if w or d is False:
                rep.violate("solutions", con, w or "a field gets %r instead of the chosen number" % (got,), loc)
            else:
                rep.undecided("solutions", con, "number of a field after the search: %r" % (got,))
            return
        n += 1
    if n:
        rep.holds("solutions", con, "every field has the number that was chosen for it")


def wrong_number(got, f):
    try:
        for w, h in shapes():
            n = w * h
            chosen = lambda r, c: 1 + (r * 3 + c * 5) % n
            for grid in ({}, {(0, 0): 2, (n - 1, 0): 1}):
                atoms = dict(board_atoms(grid, {}), chosen=chosen)
                for r in range(n):
                    for c in range(n):
                        x = Env(w, h, f.env(w, h, r, c), atoms).val(got)
                        if x != chosen(r, c):
                            return "box size %dx%d: field (%d, %d) gets %r instead of the chosen number %d" % (w, h, r, c, x, chosen(r, c))
    except NoValue:
        pass
    return None


def nothing_given(I, b, start, s):
    """The path condition says that an arbitrary field is not filled."""
    f = Field("z")
    num = I.bread(b, "n", f.tup, start)
    D = Decider(pc=(fnot(mkeq(num, ZERO)),))
    name = num.single().args[0]
    for g in s.pc:
        if g[0] != "not" or g[1][0] != "ex":
            continue
        bs, body = refresh(g[1][1], g[1][2])
        for t in num_atoms(body, name):
            vs = [x.single() if isinstance(x, Poly) else None for x in t.args[1:]]
            if set(vs) == set(bs) and len(bs) == 2 and D.decide(subst(body, {vs[0]: f.row, vs[1]: f.col})) is True:
                return True
    return False


def possible(pc):
    """A sudoku with a given number for which the path is taken."""
    if not pc:
        return True
    try:
        for m in models():
            if m.grid and any(True for _ in worlds(Env(m.w, m.h, {}, board_atoms(m.grid, m.cands)), pc, None)):
                return True
    except NoValue:
        pass
    return False


def check_contradiction(I, rep, loc):
    cap = Captured()
    b, outs = run_dlx(I, cap, bad=True)
    start = cap.start
    con = "dlx: impossible given"
    ok = True
    for s, v in outs:
        if isinstance(v, Exc):
            rep.violate("contradiction", con, "%s of select is not handled" % v.name, loc)
            return
        its = I.items_of(v, s)
        if its and not nothing_given(I, b, start, s):
            if possible(s.pc):
                rep.violate("contradiction", con, "the search goes on after a given number was impossible", loc)
                return
            ok = None
    rep.check(ok, "contradiction", con, message="solutions after an impossible given not excluded", loc=loc, detail="no solution when select fails")


def c10(prog):
    rep = Report("C10", prog, RULE10, A10)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    loc = where(I, public(I, "sudokutools.solve", "dlx"))
    for name in ("select", "solve"):
        if I.glob(DLX, name) is None:
            rep.undecided("constraints", "dlx", "function %s.%s not found" % (DLX, name))
            return rep
    order = []
    for part in ("givens", "earlier", "table", "solutions", "contradiction"):
        try:
            if part == "givens":
                cap = Captured()
                b, outs = run_dlx(I, cap)
                if cap.state is None:
                    raise Unsupported("the search is not reached")
                if not set(map(repr, cap.tables)) <= set(repr(r.tables[0]) for r in cap.runs):
                    raise Unsupported("givens are selected in other tables")
                for run in cap.runs:
                    del order[:]
                    check_givens(I, rep, run, b, order, loc)
                    run.order = order[0]
            elif part == "earlier" and order:
                check_earlier(I, rep, order[0], loc)
            elif part == "table" and order:
                for run in cap.runs:
                    check_table(I, rep, run, run.order, loc)
            elif part == "solutions" and order:
                check_results(I, rep, order[0], loc)
            elif part == "contradiction":
                check_contradiction(I, rep, loc)
        except Unsupported as e:
            rep.undecided(part, "dlx", "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
