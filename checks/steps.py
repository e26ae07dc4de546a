"""C13: what number-setting steps change."""
from .lib import *
from .sets import same_sets

RULE = ("abstract interpretation of the constructor and of apply() of every number-setting step with an arbitrary field and number on a generic sudoku of "
        "every shape: the number and the candidates of an arbitrary field afterwards, for all 16 ways in which it can lie relative to the field of the step")
ASSUME = ["standard library functions behave as modelled in sa/symlib.py"]
SOLVERS = "sudokutools.solvers"
SINGLE = ("NakedSingle", "HiddenSingle", "Bruteforce")


def check_step(I, rep, cls):
    name = cls.name
    field = Field("f")
    st = State()
    b = I.generic_board(st, "s")
    val = P(Var("value", ONE, N + 1))
    start = st.fork()
    loc = method_where(I, cls, "apply")
    results = []
    for s, step in I.call(cls, [field.row, field.col, val], {}, st):
        if isinstance(step, Exc) or not isinstance(step, Ref):
            raise Unsupported("a %s for a field and a number can not be made" % name)
        for s2, g in I.getattr(step, "apply", s, None):
            for s3, v in I.call(g, [b], {}, s2):
                if s3.feasible():
                    results.append((s3, v))
    rep.count("outcomes of apply", len(results))
    if not results:
        raise Unsupported("no outcome of apply")
    for s, v in results:
        if isinstance(v, Exc):
            rep.check(None, "apply", name, message="%s is raised" % v.name, loc=loc)
            return
        check_result(I, rep, name, loc, b, field, val, start, s)


def differs(a, b, field, val, pc):
    """Are two numbers different in some small sudoku that takes the path?"""
    try:
        for m in models(step=3):
            if m.n < 2:
                continue
            for k in (1, m.n):
                v0 = field.env(m.w, m.h, m.row, m.col)
                v0[val.single()] = k
                for e in worlds(Env(m.w, m.h, v0, board_atoms(m.grid, m.cands)), pc, (a, b)):
                    if e.val(a) != e.val(b):
                        return True
    except NoValue:
        pass
    return False


def check_result(I, rep, name, loc, b, field, val, start, s):
    unknown = {}
    for same in FIELDCLASSES:
        t, facts = field.target(same)
        pc = tuple(s.pc) + tuple(facts)
        n0, n1 = I.bread(b, "n", t.tup, start.fork(*facts)), I.bread(b, "n", t.tup, s.fork(*facts))
        want = val if same_field(same) else n0
        what = "number of %s" % ("its field" if same_field(same) else "fields %s" % digit_name(same))
        d = Decider(pc=pc).decide(mkeq(n1, want))
        if d is None and differs(n1, want, field, val, pc):
            d = False
        verdict(I, rep, "number", name, what, d, "is %r instead of %r" % (n1, want), loc, unknown)
        c0, c1 = I.bread(b, "c", t.tup, start.fork(*facts)), I.bread(b, "c", t.tup, s.fork(*facts))
        if same_field(same):
            want = CollV("frozenset", [("+", (), T, val)])
        elif relations(same)["surrounding"]:
            want = CollV("frozenset", [("all", c0), ("-", (), T, val)])
        else:
            want = CollV("frozenset", [("all", c0)])
        what = "candidates of %s" % ("its field" if same_field(same) else "fields %s" % digit_name(same))
        d = None
        if isinstance(c1, (CollV, Tup, Term)):
            d = same_sets(c1 if not isinstance(c1, Term) else CollV("frozenset", [("all", c1)]), want, pc, [val])
        verdict(I, rep, "candidates", name, what, d, "are %r instead of %r" % (c1, want), loc, unknown)
        rep.count("field states compared", 2)
    for rule, msg in unknown.items():
        rep.undecided(rule, name, msg)
    if "number" not in unknown:
        rep.holds("number", name, "set in the field and nowhere else")
    if "candidates" not in unknown:
        rep.holds("candidates", name, "the number alone in the field, removed from all fields of its houses, elsewhere unchanged")


class Found(Exception):
    pass


def verdict(I, rep, rule, name, what, d, msg, loc, unknown):
    if d is False:
        rep.violate(rule, "%s: %s" % (name, what), msg, loc)
        raise Found()
    if d is None:
        unknown.setdefault(rule, "%s %s" % (what, msg))


def method_where(I, cls, name):
    f = cls.find(name)
    return where(I, f) if f is not None else None


def c13(prog):
    rep = Report("C13", prog, RULE, ASSUME)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if I.templates:
        for name in SINGLE:
            cls = I.glob(SOLVERS, name)
            if cls is None:
                raise AnalysisBroken("public name %s.%s not found" % (SOLVERS, name))
            try:
                check_step(I, rep, cls)
            except Found:
                pass
            except Unsupported as e:
                rep.undecided("apply", name, "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
