"""C25: field access, iteration and copies.  C26: comparisons and counts."""
from .lib import *
from sa.sym import Board

RULE25 = ("abstract interpretation of the Sudoku class on a sudoku of any shape: after a write to a generic field the number and the candidates "
          "read in each of the 16 digit classes must be the written ones in that field and the old ones elsewhere; a new sudoku and a copy "
          "are read in a generic field; iteration, empty() and filled() must list each field of their class exactly once and no other")


def term(kind, b, f):
    t = Term(kind, b, f.items[0], f.items[1])
    return P(t) if kind == "num" else t


def same_candidates(C, want, D):
    """Is the set C equal to `want` (a Term or CollV)?"""
    w = CollV("frozenset", [("all", want)]) if isinstance(want, Term) else want
    if C == w:
        return True
    x = Var("v", None, None)
    a, b = simplify(mkin(P(x), C), D), simplify(mkin(P(x), w), D)
    if a == b:
        return True
    if a in (T, F) and b not in (T, F) or b in (T, F) and a not in (T, F):
        return False if isinstance(want, Term) or a == T else None
    return None


def refute_write(I, outs, b, field, x, number, cands):
    """A small sudoku, field and value for which the extracted effect of a write differs from what it must be."""
    try:
        for m in models(wild=True):
            if m.n > 4:
                continue
            for val in (0, 1, m.n):
                given = frozenset([val, 1])
                e = Env(m.w, m.h, field.env(m.w, m.h, m.row, m.col), board_atoms(m.grid, m.cands))
                e.v[x.single()] = val
                e.atoms["vals"] = lambda name: given
                for s, v in outs:
                    if not all(e.truth(f) for f in s.pc):
                        continue
                    if isinstance(v, Exc):
                        return "%s: raises %s" % (m, v.name)
                    for g in m.fields():
                        here = g == (m.row, m.col)
                        t = Tup([P(g[0]), P(g[1])])
                        n = e.val(I.bread(b, "n", t, s))
                        c = frozenset(e.multi(I.bread(b, "c", t, s)))
                        wn = val if here and number is not None else m.num(g)
                        wc = m.cand(g)
                        if here and cands is not None:
                            wc = frozenset(e.multi(cands))
                        if n != wn:
                            return "%s, value %s: the number of %s is %s instead of %s" % (m, val, g, n, wn)
                        if c != wc:
                            return "%s, value %s: the candidates of %s are %s instead of %s" % (m, sorted(given), g, sorted(c), sorted(wc))
    except NoValue:
        return None
    return None


def read_back(I, rep, rule, construct, loc, s, b, field, number, cands):
    """number/cands: expected content of the written field (None: unchanged); all other fields are unchanged."""
    for same in FIELDCLASSES:
        t, facts = field.target(same)
        s2 = s.fork(*facts)
        D = Decider(pc=s2.pc)
        wn = number if same_field(same) and number is not None else term("num", "s", t.tup)
        wc = cands if same_field(same) and cands is not None else term("cand", "s", t.tup)
        gn = I.bread(b, "n", t.tup, s2)
        gc = I.bread(b, "c", t.tup, s2)
        r = D.decide(mkeq(gn, wn))
        if r is not True:
            yield (False if r is False or isinstance(gn, Poly) and isinstance(wn, Poly) and distinct_atoms(gn, wn) else None), \
                "%s: the number read is %r instead of %r" % (digit_name(same), gn, wn)
        r = same_candidates(gc, wc, D)
        if r is not True:
            yield r, "%s: the candidates read are %r instead of %r" % (digit_name(same), gc, wc)


def distinct_atoms(a, b):
    """Two different contents that nothing relates."""
    return a.single() is not None and b.single() is not None and a != b and not isinstance(a.single(), Var) or \
        isinstance(a.single(), Var) != isinstance(b.single(), Var)


def c25(prog):
    rep = Report("C25", prog, RULE25, A04 + ["a generic sudoku has arbitrary numbers and candidates in every field"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    field = Field()
    x = P(Var("value", None, None))
    vals = Term("vals", "a")
    new = CollV("frozenset", [("all", vals)])
    old = Term("cand", "s", field.row, field.col)
    left = CollV("frozenset", [("all", old), ("-", (Var("x", dom=("elem", vals)),), T, None)])
    rx = Var("x", dom=("elem", vals))
    left = CollV("frozenset", [("all", old), ("-", (rx,), T, P(rx))])
    for name, args, number, cands in (
            ("__setitem__", [field.tup, x], x, None), ("set_number", [field.row, field.col, x], x, None),
            ("set_candidates", [field.row, field.col, vals], None, new),
            ("remove_candidates", [field.row, field.col, vals], None, left)):
        f = method(I, I.cls, name)
        construct = "Sudoku.%s" % name
        try:
            st = State()
            b = I.generic_board(st, "s")
            bad = []
            outs = outcomes(I, BoundV(f, b), args, {}, st)
            rep.count("paths", len(outs))
            for s, v in outs:
                if isinstance(v, Exc):
                    bad.append((False if not s.pc else None, "raises %s" % v.name))
                    continue
                for r, why in read_back(I, rep, "write and read", construct, where(I, f), s, b, field, number, cands):
                    bad.append((r if not s.pc else None, why))
                rep.count("field classes read back", 16)
            if not bad:
                rep.holds("write and read", construct, "16 field classes")
            elif [w for r, w in bad if r is False]:
                rep.violate("write and read", construct, [w for r, w in bad if r is False][0], where(I, f))
            else:
                w = refute_write(I, outs, b, field, x, number, cands)
                if w is not None:
                    rep.violate("write and read", construct, w, where(I, f))
                else:
                    rep.undecided("write and read", construct, bad[0][1])
        except Unsupported as e:
            rep.undecided("write and read", construct, "no transfer function: %s" % e)
    # the two ways of reading
    for name, args, want in (("get_number", [field.row, field.col], term("num", "s", field.tup)), ("__getitem__", [field.tup], term("num", "s", field.tup))):
        f = method(I, I.cls, name)
        try:
            st = State()
            b = I.generic_board(st, "s")
            outs = outcomes(I, BoundV(f, b), args, {}, st)
            ok = all(v == want for _s, v in outs) and bool(outs)
            settle(rep, "reading", "Sudoku.%s" % name, where(I, f), (True if ok else None, "%r" % (outs,)),
                   lambda: refute(outs, field, lambda m: m.num((m.row, m.col)), as_value, wild=True))
        except Unsupported as e:
            rep.undecided("reading", "Sudoku.%s" % name, "no transfer function: %s" % e)
    new_contents(I, rep, field)
    copies(I, rep, field)
    # iteration
    for name, want in (("__iter__", None), ("empty", True), ("filled", False)):
        f = method(I, I.cls, name)
        construct = "Sudoku.%s" % name
        try:
            st = State()
            b = I.generic_board(st, "s")
            outs = outcomes(I, BoundV(f, b), [], {}, st)
            rep.count("paths", len(outs))

            def expected(m, want=want):
                return Counter(g for g in m.fields() if want is None or (not m.num(g)) == want)
            settle(rep, "iteration", construct, where(I, f), listed_once(outs, field, want), lambda: refute(outs, field, expected, as_bag, wild=True))
        except Unsupported as e:
            rep.undecided("iteration", construct, "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep


def listed_once(outs, field, want):
    own = term("num", "s", field.tup)
    for s, v in outs:
        if isinstance(v, Exc):
            return None, "raises %s" % v.name
        if not isinstance(v, (CollV, Tup)):
            return False, "%r is not a collection of fields" % (v,)
        for empty in (True, False):
            D = Decider(pc=tuple(s.pc) + ((mkeqp(own) if empty else fnot(mkeqp(own))),))
            if D.decide(f_and(*s.pc)) is False:
                continue
            n = mult(v, field.tup, D)
            if n is None:
                return None, "multiplicity in %r" % (v,)
            if n != (1 if want is None or want == empty else 0):
                return False, "%s fields are visited %s times" % ("empty" if empty else "filled", n)
        # nothing outside the grid
        k = Var("k", ZERO, None)
        for x in (Tup([-P(k) - 1, field.col]), Tup([N + P(k), field.col]), Tup([field.row, -P(k) - 1]), Tup([field.row, N + P(k)])):
            n = mult(v, x, Decider(pc=s.pc))
            if n != 0:
                return (None if n is None else False), "%r is visited" % (x,)
    return (True, "%d paths" % len(outs)) if outs else (None, "no outcome")


def new_contents(I, rep, field):
    """Raw contents of the storage a new sudoku gets."""
    f = method(I, I.cls, "__init__")
    for kind, what in (("n", "numbers"), ("c", "candidates")):
        construct = "Sudoku(): %s" % what
        try:
            name, path, row, col = I.templates[kind]
            st = I.init_state.fork()
            vals = [(st, I.init_rec.attrs[name])]
            for p in path:
                p = subst(p, {row: field.row, col: field.col})
                nxt = []
                for s, v in vals:
                    nxt.extend(I.getitem(v, p, s, None))
                vals = nxt
            for s, v in vals:
                if isinstance(v, Exc):
                    rep.undecided("new sudoku", construct, "reading raises %s" % v.name)
                    continue
                v = I.plain(v, s) if isinstance(v, Ref) else v
                if kind == "n":
                    r = Decider(pc=s.pc).decide(mkeq(v, ZERO)) if isinstance(v, Poly) else None
                else:
                    r = True if isinstance(v, (CollV, Tup)) and nonempty_of(v) == F else (False if isinstance(v, Poly) or isinstance(v, (CollV, Tup)) and nonempty_of(v) == T else None)
                rep.check(r, "new sudoku", construct, "%r" % (v,), "a new sudoku holds %r" % (v,), where(I, f))
        except Unsupported as e:
            rep.undecided("new sudoku", construct, "no transfer function: %s" % e)
    want = {"box_width": PW, "box_height": PH}
    for a, w in sorted(want.items()):
        v = I.init_rec.attrs.get(a)
        rep.check(True if v == w else (False if isinstance(v, Poly) else None), "new sudoku", "Sudoku().%s" % a, "%r" % (v,),
                  "box size (W, H) gives %s = %r" % (a, v), where(I, f))
    r1, r2 = Var("v", None, None), I.init_rec.attrs
    for a, lo, hi in (("indices", ZERO, N), ("numbers", ONE, N + 1)):
        v = r2.get(a)
        v = I.plain(v, I.init_state) if isinstance(v, Ref) else v
        if not isinstance(v, (CollV, Tup)):
            rep.undecided("new sudoku", "Sudoku().%s" % a, "%r" % (v,))
            continue
        inside = Var("v", lo, hi)
        k = Var("k", ZERO, None)
        rs = [mult(v, P(inside), Decider()) == 1, mult(v, lo - 1 - P(k), Decider()) == 0, mult(v, hi + P(k), Decider()) == 0]
        unk = None in [mult(v, q, Decider()) for q in (P(inside), lo - 1 - P(k), hi + P(k))]
        bad = None if all(rs) else first_wrong(v, lo, hi)
        rep.check(True if all(rs) else (None if unk and bad is None else False), "new sudoku", "Sudoku().%s" % a, "%r" % (v,),
                  bad or "%s = %r" % (a, v), where(I, f))


def first_wrong(v, lo, hi):
    try:
        for w, h in shapes():
            e = Env(w, h)
            got, want = e.multi(v), Counter(range(e.val(lo), e.val(hi)))
            if got != want:
                return "box size %dx%d: %s instead of %s" % (w, h, sorted(got.elements()), sorted(want.elements()))
    except NoValue:
        return None


def nonempty_of(v):
    from sa.logic import nonempty
    return nonempty(v)


def copies(I, rep, field):
    f = method(I, I.cls, "copy")
    for mode, kw, inc in (("default", {}, False), ("include_candidates=False", {"include_candidates": F}, False),
                          ("include_candidates=True", {"include_candidates": T}, True)):
        construct = "copy(%s)" % mode
        try:
            st = State()
            b = I.generic_board(st, "s")
            outs = []
            for s, v in I.call(BoundV(f, b), [], kw, st):
                outs.append((s, v))
            rep.count("paths", len(outs))
            bad = []
            for s, v in outs:
                if isinstance(v, Exc):
                    bad.append((False if not s.pc else None, "raises %s" % v.name))
                    continue
                r = I.rec(s, v) if isinstance(v, Ref) else None
                if not isinstance(r, Board):
                    bad.append((None, "the result is %r" % (v,)))
                    continue
                o = I.rec(s, b)
                for a in ("box_width", "box_height"):
                    if r.attrs.get(a) != o.attrs.get(a):
                        bad.append((False, "%s of the copy is %r" % (a, r.attrs.get(a))))
                n = I.bread(v, "n", field.tup, s)
                D = Decider(pc=s.pc)
                d = D.decide(mkeq(n, term("num", "s", field.tup)))
                if d is not True:
                    w = refute([(s, n)], field, lambda m: m.num((m.row, m.col)), as_value, wild=True)
                    bad.append((False if w or d is False else None, w or "the number of a field is %r" % (n,)))
                c = I.bread(v, "c", field.tup, s)
                want = term("cand", "s", field.tup) if inc else CollV("frozenset", [])
                d = same_candidates(c, want, D)
                if d is not True:
                    w = refute([(s, c)], field, lambda m: set(m.cand((m.row, m.col))) if inc else set(), as_set, wild=True)
                    bad.append((False if w or d is False else None, w or "the candidates of a field are %r" % (c,)))
            if not outs:
                bad.append((None, "no outcome"))
            defs = [w for r, w in bad if r is False]
            rep.check(True if not bad else (False if defs else None), "copy", construct, "generic field, both box dimensions",
                      defs[0] if defs else (bad[0][1] if bad else ""), where(I, f))
        except Unsupported as e:
            rep.undecided("copy", construct, "no transfer function: %s" % e)


# ---------------------------------------------------------------- C26
RULE26 = ("abstract interpretation of diff, ==, equals, count and len on two arbitrary sudokus of the same shape: the reported family must be "
          "exactly the fields whose numbers differ; equality must be the negation of 'some field differs' in the numbers (and the candidates, "
          "when asked); count must be the size of the family of filled fields and len the number of fields")


def differs(outs, field):
    a, b = term("num", "s", field.tup), term("num", "o", field.tup)
    for s, v in outs:
        if isinstance(v, Exc):
            return None, "raises %s" % v.name
        if not isinstance(v, (CollV, Tup)):
            return False, "%r is not a collection of fields" % (v,)
        for eq in (True, False):
            fact = mkeq(a, b) if eq else fnot(mkeq(a, b))
            if Decider(pc=(fact,)).decide(f_and(*s.pc)) is False:
                continue
            n = mult(v, field.tup, Decider(pc=tuple(s.pc) + (fact,)))
            if n is None:
                return None, "multiplicity in %r" % (v,)
            if n != (0 if eq else 1):
                return False, "%s fields are reported %s times" % ("equal" if eq else "different", n)
    return (True, "%d paths" % len(outs)) if outs else (None, "no outcome")


def equality(outs, field, cands):
    """True is returned exactly if no field differs."""
    from sa.logic import conj
    from .candidates import solved_formula
    phi = solved_formula(outs)
    if phi is None:
        return None, "result not a single conjunction"
    if phi in (T, F):
        return False, "always %s" % (phi == T)
    fams = {"n": [], "c": []}
    for g in conj(phi):
        if g[0] != "not":
            return None, "condition %s" % show(g)
        bs, f = (g[1][1], g[1][2]) if g[1][0] == "ex" else ((), g[1])
        for alt in (f[1] if f[0] == "or" else (f,)):
            dif = [c for c in conj(alt) if c[0] == "not" and c[1][0] in ("eq", "eqv")]
            kinds = [("n" if num_atoms(c, "s") and num_atoms(c, "o") else "c" if "cand" in repr(c) else None) for c in dif]
            hits = [(c, k) for c, k in zip(dif, kinds) if k]
            if len(hits) != 1:
                return None, "condition %s" % show(g)
            fams[hits[0][1]].append((bs, alt, hits[0][0]))
    D0 = Decider()
    a, b = term("num", "s", field.tup), term("num", "o", field.tup)
    ca, cb = term("cand", "s", field.tup), term("cand", "o", field.tup)
    for kind, l in sorted(fams.items()):
        if kind == "c" and not cands:
            if l:
                return None, "candidates are compared"
            continue
        hit = False
        for bs, alt, compared in l:
            r = covers(bs, alt, compared, field, kind)
            hit = hit or r
        if not hit:
            return None, "not every field's %s are compared" % ("numbers" if kind == "n" else "candidates")
    return True, show(phi)


def covers(bs, alt, compared, field, kind):
    """alt says: field f(bs) differs; does it range over all fields and compare the same field of both?"""
    from sa.logic import conj, mentions
    ts = []

    def pred(t):
        if isinstance(t, Term) and t.op in ("num", "cand") and t not in ts:
            ts.append(t)
        return False
    mentions(compared, pred)
    ts = [t for t in ts if t.op == ("num" if kind == "n" else "cand")]
    if len(ts) != 2 or set(t.args[0] for t in ts) != {"s", "o"} or ts[0].args[1:] != ts[1].args[1:]:
        return False
    if kind == "n" and compared != fnot(mkeq(P(ts[0]), P(ts[1]))):
        return False
    if kind == "c" and not same_pair(compared, ts):
        return False
    rest = [c for c in conj(alt) if c != compared]
    b2, c2, e2 = refresh(bs, f_and(*rest), Tup(ts[0].args[1:]))
    # sudokus whose numbers differ are told apart by the number family: here the numbers may be taken as equal
    same = () if kind == "n" else (mkeq(term("num", "s", field.tup), term("num", "o", field.tup)),)
    return Decider(pc=same).decide(simplify(mkex(b2, f_and(c2, mkeq(e2, field.tup))), Decider(pc=same))) is True


def same_pair(compared, ts):
    """compared is: the two candidate terms (or their sets) differ."""
    g = compared[1]
    if g[0] != "eqv":
        return False
    sides = []
    for x in g[1:]:
        if isinstance(x, CollV) and len(x.ops) == 1 and x.ops[0][0] == "all" and x.kind in ("set", "frozenset"):
            x = x.ops[0][1]
        sides.append(x)
    return sides == ts or sides == ts[::-1]


def c26(prog):
    rep = Report("C26", prog, RULE26, A04)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    field = Field()

    def run(name, kw, prove, want, read, two=True):
        f = method(I, I.cls, name)
        construct = "Sudoku.%s%s" % (name, "(candidates=%s)" % (kw["candidates"] == T) if "candidates" in kw else "")
        try:
            st = State()
            b = I.generic_board(st, "s")
            args = [I.generic_board(st, "o")] if two else []
            outs = outcomes(I, BoundV(f, b), args, kw, st)
            rep.count("paths", len(outs))
            settle(rep, "comparison", construct, where(I, f), prove(outs), lambda: refute(outs, field, want, read, two, wild=True))
        except Unsupported as e:
            rep.undecided("comparison", construct, "no transfer function: %s" % e)

    def truth(e, v):
        return bool(e.val(v))

    def number_diff(m):
        return Counter(f for f in m.fields() if m.num(f) != m.other[0].get(f, 0))

    def cand_diff(m):
        return any(m.cand(f) != m.other[1].get(f, frozenset()) for f in m.fields())
    run("diff", {}, lambda o: differs(o, field), number_diff, as_bag)
    run("__eq__", {}, lambda o: equality(o, field, False), lambda m: not number_diff(m), truth)
    run("equals", {}, lambda o: equality(o, field, False), lambda m: not number_diff(m), truth)
    run("equals", {"candidates": F}, lambda o: equality(o, field, False), lambda m: not number_diff(m), truth)
    run("equals", {"candidates": T}, lambda o: equality(o, field, True), lambda m: not number_diff(m) and not cand_diff(m), truth)

    def counted(outs):
        for s, v in outs:
            t = v.single() if isinstance(v, Poly) else None
            if not (isinstance(t, Term) and t.op == "len" and isinstance(t.args[0], CollV)):
                return None, "%r" % (v,)
            c = t.args[0]
            if any(o[0] != "+" for o in c.ops):
                return None, "%r" % (v,)
            pairs = [("+", o[1], o[2], Tup([P(b) for b in o[1]]) if len(o[1]) == 2 and c.kind in ("list", "gen", "tuple", "iter") else o[3])
                     for o in c.ops]
            r = listed_once([(s, CollV(c.kind, pairs))], field, False)
            if r[0] is not True:
                return None, r[1]
        return (True, "size of the family of filled fields") if outs else (None, "no outcome")
    run("count", {}, counted, lambda m: sum(1 for f in m.fields() if m.num(f)), as_value, two=False)
    run("__len__", {}, lambda outs: (True if outs and all(isinstance(v, Poly) and v == N * N for _s, v in outs) else None, "%r" % (outs,)),
        lambda m: m.n * m.n, as_value, two=False)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
