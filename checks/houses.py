"""C04 and C05: the index arithmetic of rows, columns, boxes, parts and surroundings, for every box shape."""
from collections import Counter

from .lib import *

WAYS = (("row", "row_of"), ("column", "column_of"), ("box", "box_of"), ("surrounding", "surrounding_of"))
RULE04 = ("abstract interpretation of the house functions on a field given by its mixed-radix digits (row = H*bR+pR, col = W*bC+pC); "
          "the resulting families of fields are compared, for all box widths W and heights H, with the fields of the 16 digit classes: "
          "each class must occur exactly as often as the definition of the house says")
def house_outcomes(I, where_, meth, include, field):
    """Paths of one house function for a generic field. include None: the default."""
    kw = {} if include is None else {"include": T if include else F}
    st = State()
    if where_ == "sudoku":
        b = I.generic_board(st, "s")
        return outcomes(I, BoundV(method(I, I.cls, meth), b), [field.row, field.col], kw, st)
    kw.update(width=PW, height=PH)
    return outcomes(I, public(I, "sudokutools.coordinates", meth), [field.row, field.col], kw, st)


def check_house(I, rep, where_, kind, meth, include, rule="house"):
    field = Field()
    name = ("Sudoku.%s" if where_ == "sudoku" else "coordinates.%s") % meth
    construct = "%s(include=%s)" % (name, "default" if include is None else include)
    inc = include is None or include
    f = method(I, I.cls, meth) if where_ == "sudoku" else public(I, "sudokutools.coordinates", meth)
    try:
        outs = house_outcomes(I, where_, meth, include, field)
    except Unsupported as e:
        rep.undecided(rule, construct, "no transfer function: %s" % e)
        return None

    def expect(same):
        return 1 if relations(same)[kind] and (inc or not same_field(same)) else 0

    def concrete(w, h, row, col):
        n = w * h
        return Counter((r, c) for r in range(n) for c in range(n)
                       if concrete_relations(w, h, (row, col), (r, c))[kind] and (inc or (r, c) != (row, col)))
    rep.count("paths of %s functions" % where_, len(outs))
    rep.count("digit classes compared", 16 * len(outs))
    return decide_family(I, rep, rule, construct, where(I, f), outs, field, expect, concrete)


def c04(prog):
    rep = Report("C04", prog, RULE04, A04)
    I = Interp(prog)
    try:
        I.setup_boards()
    except Unsupported as e:
        rep.undecided("house", "Sudoku", "storage of the class not understood: %s" % e)
    for w in ("sudoku", "coordinates"):
        if w == "sudoku" and not I.templates:
            continue
        for kind, meth in WAYS:
            for inc in (True, False, None):
                check_house(I, rep, w, kind, meth, inc)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep


# ---------------------------------------------------------------- C05
RULE05 = ("abstract interpretation of the_row/the_column/the_box/the_part on a number given by its mixed-radix digits and of box_at on a "
          "generic field: families are compared over the 16 digit classes for all W and H; for numbers -1-k and W*H+k (k >= 0) every "
          "path must raise ValueError")


def value_equal(I, rep, rule, construct, loc, outs, want, env):
    """Every outcome is the integer `want`."""
    for s, v in outs:
        if isinstance(v, Exc):
            ok = None
        else:
            ok = Decider(pc=s.pc).decide(mkeq(v, want)) if isinstance(v, Poly) else (False if not isinstance(v, Poly) else None)
        if ok is True:
            continue
        try:
            for e, desc in env():
                if all(e.truth(f) for f in s.pc):
                    if isinstance(v, Exc):
                        rep.violate(rule, construct, "%s: raises %s" % (desc, v.name), loc)
                        return False
                    if e.val(v) != e.val(want):
                        rep.violate(rule, construct, "%s: %r instead of %r" % (desc, e.val(v), e.val(want)), loc)
                        return False
        except NoValue as x:
            rep.undecided(rule, construct, "%r not evaluable" % (x,))
            return None
        if ok is not True:
            rep.undecided(rule, construct, "%r = %r not decided" % (v, want))
            return None
    rep.holds(rule, construct, "%r" % (want,))
    return True


def field_envs(field):
    def go():
        for w, h in shapes():
            for r in range(w * h):
                for c in range(w * h):
                    yield Env(w, h, field.env(w, h, r, c)), "box size %dx%d, field (%d, %d)" % (w, h, r, c)
    return go


def raises(I, rep, rule, construct, loc, outs, exc, envs):
    """Every outcome raises exc (or a subclass)."""
    from sa.sym import exc_matches
    bad = [(s, v) for s, v in outs if not (isinstance(v, Exc) and exc_matches(v.name, exc))]
    if not outs:
        rep.undecided(rule, construct, "no outcome")
        return
    if not bad:
        rep.holds(rule, construct, "%d paths, all raise %s" % (len(outs), exc))
        return
    for s, v in bad:
        what = "raises %s" % v.name if isinstance(v, Exc) else "returns %r" % (v,)
        if not s.pc or Decider().decide(f_and(*s.pc)) is True:
            rep.violate(rule, construct, "%s instead of raising %s" % (what, exc), loc)
            return
        try:
            for e, desc in envs():
                if all(e.truth(f) for f in s.pc):
                    rep.violate(rule, construct, "%s: %s instead of raising %s" % (desc, what, exc), loc)
                    return
        except NoValue:
            pass
    rep.undecided(rule, construct, "path not excluded: %r when %s" % (bad[0][1], show(f_and(*bad[0][0].pc))))


def c05(prog):
    rep = Report("C05", prog, RULE05, A04)
    I = Interp(prog)
    for name, idx, rel in (("the_row", "row", same_row), ("the_column", "col", same_col), ("the_box", "box", same_box),
                           ("the_part", "part", lambda s: s[1] and s[3])):
        f = public(I, "sudokutools.coordinates", name)
        field = Field()
        num = {"row": field.row, "col": field.col, "box": PH * P(field.bR) + P(field.bC),
               "part": PW * P(field.pR) + P(field.pC)}[idx]

        def concrete(w, h, row, col, idx=idx):
            n = w * h
            key = {"row": lambda r, c: r, "col": lambda r, c: c, "box": lambda r, c: (r // h, c // w),
                   "part": lambda r, c: (r % h, c % w)}[idx]
            return Counter((r, c) for r in range(n) for c in range(n) if key(r, c) == key(row, col))
        try:
            outs = outcomes(I, f, [num], {"width": PW, "height": PH}, State())
        except Unsupported as e:
            rep.undecided("listed fields", name, "no transfer function: %s" % e)
            outs = None
        if outs is not None:
            rep.count("paths", len(outs))
            decide_family(I, rep, "listed fields", name, where(I, f), outs, field, lambda s: 1 if rel(s) else 0, concrete)
        for what, mk in (("below 0", lambda k: -P(k) - 1), ("above the grid", lambda k: PW * PH + P(k))):
            k = Var("k", ZERO, None)
            construct = "%s of a number %s" % (name, what)
            try:
                outs = outcomes(I, f, [mk(k)], {"width": PW, "height": PH}, State())
            except Unsupported as e:
                rep.undecided("range check", construct, "no transfer function: %s" % e)
                continue
            rep.count("paths", len(outs))

            def envs(mk=mk, k=k):
                for w, h in shapes(3):
                    for i in range(4):
                        e = Env(w, h, {k: i})
                        yield e, "box size %dx%d, number %d" % (w, h, e.val(mk(k)))
            raises(I, rep, "range check", construct, where(I, f), outs, "ValueError", envs)
    field = Field()
    want = PH * P(field.bR) + P(field.bC)
    f = public(I, "sudokutools.coordinates", "box_at")
    for construct, go in (
            ("coordinates.box_at", lambda st: outcomes(I, f, [field.row, field.col], {"width": PW, "height": PH}, st)),
            ("Sudoku.box_at", lambda st: outcomes(I, BoundV(method(I, I.board_class(), "box_at"), I.generic_board(st, "s")), [field.row, field.col], {}, st))):
        try:
            outs = go(State())
        except Unsupported as e:
            rep.undecided("box index", construct, "no transfer function: %s" % e)
            continue
        value_equal(I, rep, "box index", construct, where(I, f if construct.startswith("c") else method(I, I.board_class(), "box_at")),
                    outs, want, field_envs(field))
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
