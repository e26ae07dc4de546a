"""C15: ratings of techniques."""
from .lib import *
from sa.sym import Coll, Inst

RULE = ("abstract interpretation of rate() and score() with solvers.solve() replaced by its contract (hand a sequence of steps to the given "
        "callback): a step is abstracted to its class; every class in SOLVERS alone must give an integer in 0..10 for both, 0 only for the "
        "candidate calculation; no step gives 0; for every pair of classes, and for three steps, rate is the larger/largest and score the "
        "sum; solve() hands the callback every step it applies and nothing else")


def step_classes(I):
    L = I.glob("sudokutools.solvers", "SOLVERS")
    if L is None:
        raise AnalysisBroken("public name sudokutools.solvers.SOLVERS not found")
    c = I.plain(L, State())
    c = list(c.items) if isinstance(c, Tup) else [o[3] for o in c.ops if o[0] == "+" and not o[1] and o[2] == T]
    return [x for x in c if isinstance(x, ClassV)]


def callback_of(args, kwargs):
    if len(args) > 1:
        return args[1]
    return kwargs.get("report")


def run_with(I, f, classes):
    """Results of f(sudoku) when solve() reports one step of each class in order."""
    seen = []

    def solve(I, args, kwargs, st, node):
        seen.append(1)
        cb = callback_of(args, kwargs)
        todo = [st]
        for c in classes:
            nxt = []
            for s in todo:
                inst = I.new(s, Inst(c, {"clues": Tup([]), "affected": Tup([]), "values": Tup([])}))
                if cb is None:
                    nxt.append(s)
                    continue
                for s2, v in I.call(cb, [inst], {}, s, node):
                    if isinstance(v, Exc):
                        yield s2, v
                    else:
                        nxt.append(s2)
            todo = nxt
        for s in todo:
            yield s, I.generic_board(s, "solution")
    I.stubs[("sudokutools.solvers", "solve")] = solve
    st = State()
    b = I.generic_board(st, "s")
    outs = outcomes(I, f, [b], {}, st)
    if not seen:
        raise Unsupported("%s does not use solvers.solve" % f.name)
    return [v for s, v in outs if s.feasible()]


def number(v):
    if isinstance(v, Poly) and v.isconst():
        c = v.cval()
        return int(c) if c == int(c) else c
    if isinstance(v, K) and isinstance(v.v, bool):
        return int(v.v)
    if isinstance(v, K):
        return v.v if v.v is not None else "None"
    return None


def reported_classes(prog, rep, classes, one, rate):
    """What find() of each technique yields must be an instance of a rated class (points-to analysis)."""
    from sa.entries import Entries
    from sa.heap import Obj, vobj
    E = Entries(prog)
    known = {}
    for c in classes:
        for x in c.mro():
            if isinstance(x, ClassV):
                known.setdefault(x.name, x)
    for c in E.solver_classes():
        E.reset()
        f = E.method("find", c)
        con = "steps yielded by %s.find" % c.meta["name"]
        _r, ys = E.run(f, selfv=vobj(c))
        names = sorted(set(s.meta["cls"].meta["name"] for s in ys if isinstance(s, Obj) and s.kind == "inst"))
        rest = [s for s in ys if not (isinstance(s, Obj) and s.kind == "inst")]
        rep.count("find() methods analysed")
        ok = True
        for n in names:
            if n in [x.name for x in classes]:
                continue
            v = known.get(n)
            if v is None:
                rep.undecided("yielded-steps-rated", con, "class %s not resolved" % n)
                ok = False
                continue
            try:
                k, t = one(rate, [v])
            except Unsupported as e:
                k, t = None, str(e)
            if isinstance(k, Exc):
                rep.violate("yielded-steps-rated", con, "yields steps of class %s, for which rate() %s" % (n, t), prog.loc(f.meta["node"]))
                ok = False
            elif k is None:
                rep.undecided("yielded-steps-rated", con, t)
                ok = False
        if rest or not names:
            rep.undecided("yielded-steps-rated", con, "yields values of unknown kind" if rest else "no step found")
        elif ok:
            rep.holds("yielded-steps-rated", con, ", ".join(names))


def c15(prog):
    rep = Report("C15", prog, RULE, A04 + ["solvers.solve() calls its report argument with the steps it applies"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    rate, score = public(I, "sudokutools.analyze", "rate"), public(I, "sudokutools.analyze", "score")
    calc = I.glob("sudokutools.solvers", "CalculateCandidates")
    classes = step_classes(I)
    if not classes:
        raise AnalysisBroken("no techniques in SOLVERS")
    rep.count("techniques", len(classes))
    if calc is None:
        raise AnalysisBroken("public name sudokutools.solvers.CalculateCandidates not found")
    if calc not in classes:
        classes = [calc] + classes

    def one(f, cs):
        rep.count("step sequences")
        vs = run_with(I, f, cs)
        if len(vs) != 1:
            return None, "%d outcomes" % len(vs)
        if isinstance(vs[0], Exc):
            return vs[0], "raises %s" % vs[0].name
        n = number(vs[0])
        return n, repr(vs[0])
    table = {}
    for f in (rate, score):
        con = f.name
        try:
            n, t = one(f, [])
            rep.check(None if n is None else n == 0, "no-steps", con, "0", "result for a sudoku without any step: " + t, where(I, f))
        except Unsupported as e:
            rep.undecided("no-steps", con, "no transfer function: %s" % e)
        for c in classes:
            con = "%s of one %s step" % (f.name, c.name)
            try:
                n, t = one(f, [c])
            except Unsupported as e:
                rep.undecided("every-technique-rated", con, "no transfer function: %s" % e)
                continue
            if n is None:
                rep.undecided("every-technique-rated", con, t)
                continue
            if isinstance(n, Exc):
                rep.violate("every-technique-rated", con, "no rating: " + t, where(I, f))
                continue
            if not (isinstance(n, int) and 0 <= n <= 10):
                rep.violate("every-technique-rated", con, "rating %s is not an integer from 0 to 10" % n, where(I, f))
            elif (n == 0) != (c is calc):
                rep.violate("only-calculation-rated-0", con, "rating %d" % n, where(I, f))
            else:
                rep.holds("every-technique-rated", con, str(n))
            table.setdefault(c.name, (c, {}))[1][f.name] = n
    for name, (c, d) in sorted(table.items()):
        if len(d) == 2:
            rep.check(len(set(d.values())) == 1, "same-rating", name, message="rate() uses %s and score() %s" % (d.get(rate.name), d.get(score.name)), loc=where(I, rate))
    reported_classes(prog, rep, classes, one, rate)
    rated = [(c, d[rate.name]) for c, d in table.values() if rate.name in d and isinstance(d[rate.name], int)]
    for f, name, comb in ((rate, "highest", max), (score, "sum", sum)):
        seqs = [(a, b) for a in rated for b in rated]
        by = sorted(rated, key=lambda x: x[1])
        if len(by) >= 3:
            lo, mid, hi = by[0], by[len(by) // 2], by[-1]
            seqs += [(lo, hi, mid), (hi, lo, mid), (mid, lo, hi), (lo, mid, hi), (hi, hi, hi), (lo, lo, mid), (mid, mid, lo, hi, hi), (hi,) * 12,
                     (lo, mid) * 6]
        ok = True
        for seq in seqs:
            con = "%s of %s" % (f.name, ", ".join(c.name for c, _n in seq))
            try:
                n, t = one(f, [c for c, _n in seq])
            except Unsupported as e:
                rep.undecided(name, f.name, "no transfer function: %s" % e)
                ok = False
                break
            want = comb([k for _c, k in seq])
            if n is None:
                rep.undecided(name, con, t)
                ok = False
                break
            if isinstance(n, Exc) or n != want:
                rep.violate(name, con, "%s instead of %d" % (t, want), where(I, f))
                ok = False
                break
        if ok:
            rep.holds(name, f.name, "all %d combinations of reported techniques interpreted" % len(seqs))
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
