"""C08: computed candidates.  C09: verdicts (conflicts, solved, unique)."""
from .lib import *
from .houses import check_house
from sa.logic import conj
from sa.sym import Gen

RULE08 = ("abstract interpretation of calc_candidates and init_candidates on an arbitrary sudoku of any shape: the membership formula of the "
          "resulting set must be 1 <= v <= N and not exists field in F: number(field) = v, where F is proved to be exactly the other fields "
          "of the row, column and box (16 digit classes); a filled field must give exactly its number; writes of init_candidates must reach "
          "every field, or exactly the filled ones")


def peers_expect(same):
    return 1 if relations(same)["surrounding"] and not same_field(same) else 0


def peers_concrete(w, h, row, col):
    n = w * h
    return Counter({(r, c): 1 for r in range(n) for c in range(n)
                    if (r, c) != (row, col) and concrete_relations(w, h, (row, col), (r, c))["surrounding"]})


def check_allowed(rep, rule, construct, loc, C, pc, field, filled, board="s"):
    """C holds exactly the numbers possible in an empty field / exactly the number of a filled one."""
    tmp = Report(rep.pid, rep.prog, "")
    ok = prove_allowed(tmp, rule, construct, loc, C, pc, field, filled, board)
    if ok is None:
        w = refute_allowed(C, pc, field, filled, board)
        w = w or stops_early(C, pc)
        if w is not None:
            rep.violate(rule, construct, w, loc)
            return False
    rep.held += tmp.held
    rep.viol += tmp.viol
    rep.undec += tmp.undec
    return ok


def refute_allowed(C, pc, field, filled, board):
    """A small sudoku for which the extracted set C differs from the definition."""
    try:
        for w, h in SMALL:
            n = w * h
            for grid, cands in grids(w, h):
                for row, col in ((0, 0), (n - 1, n - 2), (n // 2, n // 2)):
                    if bool(grid.get((row, col))) != filled:
                        continue
                    e = Env(w, h, field.env(w, h, row, col), board_atoms(grid, cands, board))
                    if not all(e.truth(f) for f in pc):
                        continue
                    got = set(e.multi(C))
                    if filled:
                        want = {grid[row, col]}
                    else:
                        want = set(range(1, n + 1)) - set(grid.get(f, 0) for f in peers_concrete(w, h, row, col))
                    if got != want:
                        return "box size %dx%d, numbers %s, stored candidates %s: field (%d, %d) gets %s instead of %s" % (
                            w, h, grid, {k: sorted(v) for k, v in cands.items() if k == (row, col)}, row, col, sorted(got, key=repr), sorted(want))
    except NoValue:
        return None
    return None


def stops_early(C, pc):
    """A loop that removes numbers from a set and is left once k >= 1 of them remain: the fields it has not looked at may
    hold one of these."""
    hit = []
    for f in equations((tuple(pc), C)):
        for a in f[1].atoms():
            if isinstance(a, Term) and a.op == "len" and isinstance(a.args[0], CollV) and any(o[0] == "carried" for o in a.args[0].ops):
                k = P(a) - f[1]
                k = k if k.isconst() else P(a) + f[1]
                if k.isconst() and k.cval() >= 1:
                    hit.append(k.cval())
    if hit:
        return "the calculation is left as soon as %d number(s) remain, without looking at the remaining fields" % hit[0]
    return None


def prove_allowed(rep, rule, construct, loc, C, pc, field, filled, board="s"):
    own = P(Term("num", board, field.row, field.col))
    if not isinstance(C, (CollV, Tup)):
        rep.violate(rule, construct, "the result is not a set: %r" % (C,), loc)
        return False
    if filled:
        facts = tuple(pc) + (fnot(mkeqp(own)),)
        r1 = Decider(pc=facts).decide(mkin(own, C))
        v = Var("v", None, None)
        r2 = Decider(pc=facts + (fnot(mkeqp(P(v) - own)),)).decide(mkin(P(v), C))
        if r1 is True and r2 is False:
            rep.holds(rule, construct, "%r" % (C,))
            return True
        if r1 is False or r2 is True or definitely_extra(C, own, facts):
            rep.violate(rule, construct, "a filled field gets %r instead of its own number" % (C,), loc)
            return False
        rep.undecided(rule, construct, "%r" % (C,))
        return None
    facts = tuple(pc) + (mkeqp(own),)
    # numbers outside 1..N
    k = Var("k", ZERO, None)
    for what, x in (("0", ZERO), ("a negative number", -P(k) - 1), ("a number above N", N + 1 + P(k))):
        r = Decider(pc=facts).decide(mkin(x, C))
        if r is True:
            rep.violate(rule, construct, "an empty field gets %s as candidate: %r" % (what, C), loc)
            return False
        if r is None:
            rep.undecided(rule, construct, "membership of %s in %r" % (what, C))
            return None
    v = Var("v", ONE, N + 1)
    D = Decider(pc=facts)
    phi = simplify(mkin(P(v), C), D)
    if phi == F:
        rep.violate(rule, construct, "an empty field never gets any candidate: %r" % (C,), loc)
        return False
    fam = []
    for g in conj(phi):
        e = excluded_family(g, v, board)
        if e is None:
            if g[0] == "in" and g[2] == Term("cand", board, field.row, field.col):
                rep.violate(rule, construct, "the candidates of an empty field depend on those stored before: %r" % (C,), loc)
                return False
            rep.undecided(rule, construct, "condition %s on a candidate" % show(g))
            return None
        fam.extend(e)
    fam = [(b, simplify(f_and(c, fnot(mkeq(x, field.tup))), D) if not b else f_and(c, fnot(mkeq(x, field.tup))), x) for b, c, x in fam]
    if not fam:
        rep.violate(rule, construct, "numbers of other fields do not restrict the candidates: %r" % (C,), loc)
        return False
    st = State()
    st.pc = tuple(f for f in pc if not num_atoms(f, board))
    coll = CollV("set", [("+", b, c, x) for b, c, x in fam])

    def concrete(w, h, row, col):
        return peers_concrete(w, h, row, col)
    mapped = [(st, subst(coll, {v: ONE}))]
    return decide_family(None, rep, rule, construct, loc, mapped, field, peers_expect, concrete)


def definitely_extra(C, own, facts):
    """A constant other than the own number is in C for some number."""
    if isinstance(C, Tup) and not C.items or isinstance(C, CollV) and not C.ops:
        return True
    return False


def c08(prog):
    rep = Report("C08", prog, RULE08, A04)
    I = Interp(prog)
    field = Field()
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    calc = public(I, "sudokutools.solve", "calc_candidates")
    init = public(I, "sudokutools.solve", "init_candidates")
    own = P(Term("num", "s", field.row, field.col))

    def cases(s):
        for filled in (False, True):
            fact = fnot(mkeqp(own)) if filled else mkeqp(own)
            if Decider(pc=s.pc).decide(fact) is False:
                continue
            yield filled, s.fork(fact)
    try:
        st = State()
        b = I.generic_board(st, "s")
        outs = outcomes(I, calc, [b, field.row, field.col], {}, st)
        rep.count("paths of calc_candidates", len(outs))
        seen = set()
        for s, v in outs:
            for filled, s2 in cases(s):
                seen.add(filled)
                con = "calc_candidates of %s field" % ("a filled" if filled else "an empty")
                if isinstance(v, Exc):
                    rep.check(False if not [f for f in s.pc if Decider().decide(f) is not True and not num_atoms(f, "s")] else None,
                              "candidates", con, message="raises %s when %s" % (v.name, show(f_and(*s.pc))), loc=where(I, calc))
                    continue
                check_allowed(rep, "candidates", con, where(I, calc), v, s2.pc, field, filled)
        if seen != {True, False}:
            rep.undecided("candidates", "calc_candidates", "not all cases covered by the paths found")
    except Unsupported as e:
        rep.undecided("candidates", "calc_candidates", "no transfer function: %s" % e)
    for mode, kw in (("default", {}), ("filled_only=False", {"filled_only": F}), ("filled_only=True", {"filled_only": T})):
        try:
            st = State()
            b = I.generic_board(st, "s")
            outs = outcomes(I, init, [b], kw, st)
            rep.count("paths of init_candidates", len(outs))
            for s, v in outs:
                for filled, s2 in cases(s):
                    con = "init_candidates(%s) on %s field" % (mode, "a filled" if filled else "an empty")
                    if isinstance(v, Exc):
                        rep.undecided("initialising", con, "raises %s when %s" % (v.name, show(f_and(*s.pc))))
                        continue
                    C = I.bread(b, "c", field.tup, s2)
                    base = Term("cand", "s", field.row, field.col)
                    if mode == "filled_only=True" and not filled:
                        same = C == CollV("frozenset", [("all", base)])
                        if not same:
                            x = Var("v", None, None)
                            phi = simplify(mkin(P(x), C), Decider(pc=s2.pc))
                            same = True if phi == ("in", P(x), base) else None
                            if same is None and (phi in (T, F) or not mentions_term(phi, base)):
                                same = False
                        rep.check(same, "initialising", con, "candidates are left alone",
                                  "candidates of an empty field become %r although only filled fields were asked for" % (C,), where(I, init))
                        continue
                    check_allowed(rep, "initialising", con, where(I, init), C, s2.pc, field, filled)
        except Unsupported as e:
            rep.undecided("initialising", "init_candidates(%s)" % mode, "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep


def mentions_term(f, t):
    from sa.logic import mentions
    return mentions(f, lambda a: a == t)


# ---------------------------------------------------------------- C09
RULE09 = ("abstract interpretation of find_conflicts, is_solved and is_unique on an arbitrary sudoku of any shape: the family of reported "
          "pairs is compared, per digit class and per case (equal numbers / different numbers / empty), with the definition of a conflict; "
          "the formula of is_solved must be 'no empty field and no such pair'; is_unique is interpreted against a solution enumeration of "
          "0, 1, 2 and 3 elements")


def pair_cases(field, t):
    a, b = P(Term("num", "s", field.row, field.col)), P(Term("num", "s", t.row, t.col))
    yield "equal numbers", (mkeq(a, b), fnot(mkeqp(a)), fnot(mkeqp(b))), a
    yield "different numbers", (fnot(mkeq(a, b)),), a
    yield "two empty fields", (mkeqp(a), mkeqp(b)), a


def prove_conflicts(outs, field, only_own):
    """All pair classes; only_own: only `field` was asked about."""
    for s, v in outs:
        if isinstance(v, Exc):
            return None, "raises %s" % v.name
        if not isinstance(v, (CollV, Tup)):
            return False, "no collection of conflicts: %r" % (v,)
        for same in FIELDCLASSES:
            t, facts = field.target(same)
            for what, fs, a in pair_cases(field, t):
                if same_field(same) and what == "different numbers":
                    continue
                if Decider(pc=tuple(facts) + fs).decide(f_and(*s.pc)) is False:
                    continue
                pc = tuple(s.pc) + tuple(facts) + fs
                D = Decider(pc=pc)
                want = peers_expect(same) and what == "equal numbers"
                ns = [mult(v, Tup([x, y, a]), D) for x, y in ((field.tup, t.tup), (t.tup, field.tup))]
                x = Var("x", None, None)
                other = Decider(pc=pc + (fnot(mkeq(P(x), a)), fnot(mkeq(P(x), P(Term("num", "s", t.row, t.col))))))
                odd = [other.decide(mkin(Tup([p, q, P(x)]), v)) for p, q in ((field.tup, t.tup), (t.tup, field.tup))]
                if None in ns or None in odd:
                    return None, "%s, %s: not decided" % (digit_name(same), what)
                if True in odd:
                    return False, "%s: reported with another number" % digit_name(same)
                if want and not (any(ns) and all(n in (0, 1) for n in ns)):
                    return False, "%s with %s: reported %s times" % (digit_name(same), what, ns)
                if not want and any(ns):
                    return False, "%s with %s: reported as conflict" % (digit_name(same), what)
        if only_own:
            # a pair that does not involve the given field
            x = Var("x", None, None)
            for c1 in FIELDCLASSES[1:]:
                for c2 in FIELDCLASSES[1:]:
                    p, f1 = field.target(c1, "p")
                    q, f2 = field.target(c2, "q")
                    D = Decider(pc=tuple(s.pc) + tuple(f1) + tuple(f2))
                    r = D.decide(mkin(Tup([p.tup, q.tup, P(x)]), v))
                    if r is not False:
                        return r and False, "pairs without the given field are reported"
    return (True, "%d paths" % len(outs)) if outs else (None, "no outcome")


def refute_conflicts(outs, field, only_own):
    try:
        for w, h in SMALL[:4]:
            n = w * h
            for grid, cands in grids(w, h):
                for row, col in ((0, 0), (n - 1, n - 2)):
                    e = Env(w, h, field.env(w, h, row, col), board_atoms(grid, cands))
                    for s, v in outs:
                        if not all(e.truth(f) for f in s.pc):
                            continue
                        if isinstance(v, Exc):
                            return "box size %dx%d, numbers %s: raises %s" % (w, h, grid, v.name)
                        got = e.multi(v)
                        first = [(row, col)] if only_own else [(r, c) for r in range(n) for c in range(n)]
                        want = set(frozenset([f, g]) for f in first for g in peers_concrete(w, h, *f) if grid.get(f) and grid.get(f) == grid.get(g))
                        have = set()
                        for x, k in got.items():
                            if not (isinstance(x, tuple) and len(x) == 3) or k != 1 or x[2] != grid.get(x[0]):
                                return "box size %dx%d, numbers %s: reports %r %d times" % (w, h, grid, x, k)
                            have.add(frozenset(x[:2]))
                        if have != want:
                            d = sorted(map(sorted, want ^ have))[0]
                            return "box size %dx%d, numbers %s: %s is %sreported" % (w, h, grid, d, "not " if frozenset(d) in want else "wrongly ")
    except NoValue:
        return None
    return None


def solved_formula(outs):
    """The condition under which True is returned, as a conjunction; None if not of that form."""
    good = []
    for s, v in outs:
        if isinstance(v, Exc):
            return None
        f = v if isinstance(v, tuple) else None
        if isinstance(v, K):
            f = T if v.v else F
        elif isinstance(v, Poly):
            f = fnot(mkeqp(v))
        if f is None:
            return None
        f = f_and(*(list(s.pc) + [f]))
        if f != F:
            good.append(f)
    return good[0] if len(good) == 1 else (F if not good else None)


def prove_solved(outs):
    from sa.logic import TermSub
    phi = solved_formula(outs)
    if phi is None:
        return None, "result not a single conjunction"
    if phi in (T, F):
        return False, "always %s" % ("solved" if phi == T else "unsolved")
    empties, pairs = [], []
    for g in conj(phi):
        if g[0] != "not":
            return None, "condition %s" % show(g)
        bs, f = (g[1][1], g[1][2]) if g[1][0] == "ex" else ((), g[1])
        for alt in (f[1] if f[0] == "or" else (f,)):
            eqs = [c for c in conj(alt) if c[0] == "eq" and num_atoms(c, "s")]
            rest = [c for c in conj(alt) if c not in eqs]
            if len(eqs) != 1:
                return None, "condition %s" % show(g)
            ts = num_atoms(eqs[0], "s")
            if len(ts) == 1 and eqs[0][1] in (P(ts[0]), -P(ts[0])):
                empties.append((bs, f_and(*rest), Tup(ts[0].args[1:])))
            elif len(ts) == 2 and eqs[0][1] in (P(ts[0]) - P(ts[1]), P(ts[1]) - P(ts[0])):
                pairs.append((bs, f_and(*rest), Tup([Tup(ts[0].args[1:]), Tup(ts[1].args[1:])])))
            else:
                return None, "condition %s" % show(g)
    f1 = Field()
    own = P(Term("num", "s", f1.row, f1.col))
    D = Decider()
    r = [D.decide(mkex(*refresh(b, f_and(c, mkeq(x, f1.tup))))) for b, c, x in empties]
    if True not in r:
        return (None if None in r else False), "an empty field does not make the sudoku unsolved"
    for same in FIELDCLASSES:
        t, facts = f1.target(same)
        if same_field(same):
            continue
        tn = P(Term("num", "s", t.row, t.col))
        D = Decider(pc=tuple(facts) + (fnot(mkeqp(own)), fnot(mkeqp(tn)), mkeq(own, tn)))
        rs = [D.decide(mkex(*refresh(b, f_and(c, mkeq(x, Tup(pq)))))) for b, c, x in pairs for pq in ((f1.tup, t.tup), (t.tup, f1.tup))]
        want = bool(peers_expect(same))
        if want and True not in rs:
            return (None if None in rs else False), "%s holding the same number do not make the sudoku unsolved" % digit_name(same)
        if not want and True in rs:
            return False, "%s may hold the same number" % digit_name(same)
        if not want and None in rs:
            return None, "%s: not decided" % digit_name(same)
    same, _f = f1.target((True,) * 4)
    rs = [Decider().decide(mkex(*refresh(b, f_and(c, mkeq(x, Tup([f1.tup, f1.tup])))))) for b, c, x in pairs]
    if any(x is not False for x in rs):
        return None, "a field is compared with itself"
    return True, "%d empty-field and %d pair families" % (len(empties), len(pairs))


def refute_solved(outs):
    from sa.evalf import latin
    try:
        for w, h in SMALL:
            n = w * h
            base = latin(w, h)
            boards = [base, {}]
            for f in sorted(base):
                g = dict(base)
                g[f] = 0
                boards.append(g)
                g = dict(base)
                g[f] = g[f] % n + 1
                boards.append(g)
            rows = {(r, c): (r + c) % n + 1 for r in range(n) for c in range(n)}
            boards.append(rows)
            for r in range(0, n - 1):
                g = dict(base)
                for c in range(n):          # exchange two rows / two columns: boxes may break
                    g[r, c], g[r + 1, c] = g[r + 1, c], g[r, c]
                boards.append(g)
                g = dict(base)
                for c in range(n):
                    g[c, r], g[c, r + 1] = g[c, r + 1], g[c, r]
                boards.append(g)
            for grid in boards:
                grid = {k: x for k, x in grid.items() if x}
                want = len(grid) == n * n and not any(grid[f] == grid[g] for f in grid for g in peers_concrete(w, h, *f))
                e = Env(w, h, {}, board_atoms(grid, {}))
                for s, v in outs:
                    if all(e.truth(f) for f in s.pc):
                        got = "raises %s" % v.name if isinstance(v, Exc) else bool(e.val(v))
                        if got != want:
                            return "box size %dx%d, numbers %s: %s instead of %s" % (w, h, grid, got, want)
    except NoValue:
        return None
    return None


def c09(prog):
    rep = Report("C09", prog, RULE09, A04)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    fc = public(I, "sudokutools.analyze", "find_conflicts")
    field = Field()
    for mode, args in (("all fields", []), ("one given field", [field.tup])):
        try:
            st = State()
            b = I.generic_board(st, "s")
            outs = outcomes(I, fc, [b] + args, {}, st)
            rep.count("paths of find_conflicts", len(outs))
            settle(rep, "conflicts", "find_conflicts for %s" % mode, where(I, fc), prove_conflicts(outs, field, bool(args)),
                   lambda: refute_conflicts(outs, field, bool(args)))
        except Unsupported as e:
            rep.undecided("conflicts", "find_conflicts for %s" % mode, "no transfer function: %s" % e)
    sf = public(I, "sudokutools.analyze", "is_solved")
    try:
        st = State()
        b = I.generic_board(st, "s")
        outs = outcomes(I, sf, [b], {}, st)
        rep.count("paths of is_solved", len(outs))
        settle(rep, "solved", "is_solved", where(I, sf), prove_solved(outs), lambda: refute_solved(outs))
    except Unsupported as e:
        rep.undecided("solved", "is_solved", "no transfer function: %s" % e)
    uf = public(I, "sudokutools.analyze", "is_unique")
    for n in (0, 1, 2, 3):
        I2 = Interp(prog)

        def enum(I_, args, kwargs, st, node, n=n):
            yield st, I_.new(st, Gen(None, None, CollV("gen", [("+", (), T, K("solution %d" % i)) for i in range(n)]), 0))
        for nm in ("dlx", "bruteforce"):
            I2.stubs["sudokutools.solve", nm] = enum
        construct = "is_unique with %d solution%s" % (n, "" if n == 1 else "s")
        try:
            I2.setup_boards()
            st = State()
            outs = outcomes(I2, uf, [I2.generic_board(st, "s")], {}, st)
            rep.count("paths of is_unique", len(outs))
            got = set()
            for s, v in outs:
                if isinstance(v, Exc):
                    got.add("raises %s" % v.name if not s.pc else None)
                else:
                    got.add(Decider(pc=s.pc).decide(I2.truth(v, s)))
            if got == {n == 1}:
                rep.holds("unique", construct, "%r" % (n == 1))
            elif None in got or len(got) > 1:
                rep.undecided("unique", construct, "%r" % (outs,))
            else:
                rep.violate("unique", construct, "the verdict is %s" % sorted(got, key=repr)[0], where(I2, uf))
        except Unsupported as e:
            rep.undecided("unique", construct, "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
