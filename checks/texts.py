"""C20: command results, actions and steps can be written as text."""
import ast

from .lib import *
from .commands import SHELL, method, new_shell, public, set_sudoku, shell_class
from .failures import attempt, quiet
from .ratings import step_classes
from .saved import game_class, set_attr
from sa.sym import BoundV, BuiltinV, CollV, DictRec, Exc, K, NONE, Poly
from sa.symlib import definite_nonstr, mkstr, text

RULE = ("abstract interpretation with typed text operations (joining or adding what is surely not a text raises TypeError): Shell._print and Shell.execute on every kind "
        "of result, the shell's and Sudoku's own texts, encode_action() and the texts of actions and steps on arbitrary numbers, candidates and fields: "
        "no path raises, and what is written is a text that contains the value's text")
NUM = P(Term("num", "result"))


def parts_of(v):
    return [v.v] if isinstance(v, K) else list(v.parts)


def is_text(v):
    return isinstance(v, StrV) or isinstance(v, K) and isinstance(v.v, str)


def str_of(I, v, st):
    outs = [(s, t) for s, t in I.call(BuiltinV("str"), [v], {}, st.fork()) if s.feasible()]
    if len(outs) != 1 or not is_text(outs[0][1]):
        raise Unsupported("str() of the value")
    return outs[0][1]


def contains(text, part):
    """True / False (surely not) / None."""
    t, p = parts_of(text), parts_of(part)
    if not p or p == [""]:
        return True
    n = len(p)
    for i in range(len(t) - n + 1):
        w = t[i:i + n]
        ok = True
        for j, (a, b) in enumerate(zip(w, p)):
            if a == b:
                continue
            if isinstance(a, str) and isinstance(b, str) and (
                    n == 1 and b in a or n > 1 and (j == 0 and a.endswith(b) or j == n - 1 and a.startswith(b))):
                continue
            ok = False
        if ok:
            return True
    return False if all(isinstance(x, str) for x in t) else None


def values(I, st):
    """Results of every kind, with a description."""
    b = I.generic_board(st, "any")
    cand = I.bread(b, "c", Tup([P(Term("row")), P(Term("col"))]), st)
    return [("a number", NUM), ("the number 0", P(0)), ("the candidates of a field", cand), ("an empty set", CollV("frozenset", [])),
            ("a text", text("result")), ("an empty text", K("")), ("an object", P(Term("result")))]


def nothing(I, o, args, kwargs, s, node):
    yield s, NONE


def outfile(I, st, sh):
    set_attr(I, st, sh, outfile=Term("outfile"))

    def write(I, o, args, kwargs, s, node):
        s2 = s.fork()
        s2.ev += (("write", args[0] if args else NONE),)
        yield s2, NONE
    I.stubs[("method", "write")] = write
    for name in ("flush", "isatty"):
        I.stubs[("method", name)] = nothing


def check_print(I, rep):
    cls = shell_class(I)
    pr, ex = method(I, cls, "_print"), method(I, cls, "execute")
    for how, f in (("_print", pr), ("execute", ex)):
        st = State()
        for name, v in values(I, st):
            con = "%s: %s" % (how, name)
            attempt(rep, "print", con, lambda: one_print(I, rep, con, f, how, st, v))


def one_print(I, rep, con, f, how, base, v):
    I.stubs.clear()
    st, sh = new_shell(I, base.fork(), T)
    set_sudoku(I, st, sh, I.generic_board(st, "current"))
    outfile(I, st, sh)
    errs = []

    def error(I, args, kwargs, s, node):
        s2 = s.fork()
        s2.ev += (("error", args[-1]),)
        yield s2, NONE
    I.stubs[(SHELL, "Shell.error")] = error
    if how == "_print":
        args = [v]
    else:
        def func(I, args, kwargs, s, node):
            yield s, v
        I.stubs[("sudokutools.sudoku", "view")] = func
        args = [public(I, SHELL, "view"), I.newcoll(st, "list", []), I.newcoll(st, "list", []), I.new(st, DictRec())]
    outs = [(s, r) for s, r in I.call(BoundV(f, sh), args, {}, st.fork()) if s.feasible()]
    if not outs:
        raise Unsupported("no outcome")
    want = str_of(I, v, st)
    unknown = None
    for s, r in outs:
        if isinstance(r, Exc):
            rep.violate("print", con, "%s is raised" % r.name, where(I, f))
            return
        ev = s.ev[len(st.ev):]
        if any(e[0] == "error" for e in ev):
            rep.violate("print", con, "writing the result fails: an error is reported", where(I, f))
            return
        got = [e[1] for e in ev if e[0] == "write"]
        for e in ev:
            if e[0] == "print" and e[2].get("file") in (Term("outfile"), P(Term("outfile"))):
                got += [str_of(I, x, s) for x in e[1]]
        if any(not is_text(g) and definite(g) for g in got):
            rep.violate("print", con, "what is written is not a text", where(I, f))
            return
        if not all(is_text(g) for g in got):
            unknown = "what is written is not known to be a text"
            continue
        if not got and I.decide(mkeq(v, NONE), s) is not False:
            if v == P(Term("result")):
                continue
        if not got:
            rep.violate("print", con, "the result is not written", where(I, f))
            return
        # candidates may be written in any form
        c = True if isinstance(v, CollV) else contains(mkstr([p for g in got for p in parts_of(g)]), want)
        if c is False:
            rep.violate("print", con, "the text written does not contain the result", where(I, f))
            return
        if c is None:
            unknown = "text not known"
    if unknown:
        rep.undecided("print", con, unknown)
    else:
        rep.holds("print", con, "%d paths" % len(outs))


def definite(v):
    return v == NONE or v in (T, F) or isinstance(v, (Poly, CollV, Tup)) and definite_nonstr(v)


def check_texts(I, rep, con, loc, outs, need=None, rule="text"):
    """All outcomes are texts."""
    outs = [(s, v) for s, v in outs if s.feasible()]
    if not outs:
        raise Unsupported("no outcome")
    rep.count("paths to a text", len(outs))
    unknown = None
    for s, v in outs:
        if isinstance(v, Exc):
            rep.violate(rule, con, "%s is raised" % v.name, loc)
            return
        v = I.plain(v, s)
        if not is_text(v):
            if definite(v):
                rep.violate(rule, con, "the result is not a text", loc)
                return
            unknown = "result not known to be a text: %.80r" % (v,)
            continue
        for x in need or ():
            c = contains(v, str_of(I, x, s))
            if c is False:
                rep.violate(rule, con, "the text does not contain the value", loc)
                return
            if c is None:
                unknown = "text not understood"
    if unknown:
        rep.undecided(rule, con, unknown)
    else:
        rep.holds(rule, con, "%d paths" % len(outs))


def check_actions(I, rep):
    enc = public(I, "sudokutools.notation", "encode_action")
    A = "sudokutools.actions"
    st0 = State()
    b = I.generic_board(st0, "any")
    cand = I.bread(b, "c", Tup([P(Term("row")), P(Term("col"))]), st0)
    fields = Tup([Tup([P(Term("num", "row")), P(Term("num", "col"))])])
    sets = [("the candidates of a field", cand), ("a set", CollV("set", [("+", (), T, P(2)), ("+", (), T, P(1))])), ("a list", CollV("list", [("+", (), T, NUM)])),
            ("a tuple", Tup([P(3), P(12)])), ("no candidates", CollV("set", []))]
    cases = [("SetNumber", "a number", NUM, [NUM]), ("SetNumber", "the number 10", P(10), [P(10)])]
    cases += [("RemoveCandidates", n, v, None) for n, v in sets]
    for cname, n, v, need in cases:
        cls = public(I, A, cname)
        for what in ("encode_action", "str"):
            con = "%s of %s with %s" % (what, cname, n)

            def one():
                I.stubs.clear()
                I.stubs[("sudokutools.notation", "encode")] = lambda I, args, kwargs, s, node: iter([(s, text("coordinates"))])
                for s, a in I.call(cls, [fields, v], {}, st0.fork()):
                    if isinstance(a, Exc):
                        rep.violate("action", con, "%s is raised" % a.name, where(I, cls))
                        return
                    if what == "str":
                        f = method(I, cls, "__str__")
                        check_texts(I, rep, con, where(I, f), I.call(BoundV(f, a), [], {}, s), need, "action")
                    else:
                        check_texts(I, rep, con, where(I, enc), I.call(enc, [a], {}, s), need, "action")
            attempt(rep, "action", con, one)


def check_steps(I, rep):
    row, col, num = P(Term("num", "row")), P(Term("num", "col")), NUM
    co = Tup([Tup([P(0), P(1)]), Tup([P(2), P(3)])])
    for cls in step_classes(I):
        for what in ("__str__", "__repr__"):
            con = "%s.%s" % (cls.name, what)

            def one():
                I.stubs.clear()
                names = [a.arg for a in method(I, cls, "__init__").node.args.args][1:]
                given = {"row": row, "col": col, "value": num, "clues": co, "affected": co, "values": Tup([P(1), P(2)])}
                if any(n not in given for n in names):
                    raise Unsupported("arguments of the class")
                outs = [(s, v) for s, v in I.call(cls, [given[n] for n in names], {}, State()) if s.feasible()]
                if any(isinstance(v, Exc) for _s, v in outs):
                    raise Unsupported("step not made")
                f = method(I, cls, what)
                check_texts(I, rep, con, where(I, f), [x for s, a in outs for x in I.call(BoundV(f, a), [], {}, s)], None, "step")
            attempt(rep, "step", con, one)


def check_own_texts(I, rep):
    """Texts of a sudoku and of the shell's own commands."""
    scls = public(I, "sudokutools.sudoku", "Sudoku")
    view = public(I, "sudokutools.sudoku", "view")
    enc = method(I, scls, "encode")
    jobs = [("Sudoku.encode", lambda b: (BoundV(enc, b), [], {}), enc), ("Sudoku.encode with candidates", lambda b: (BoundV(enc, b), [], {"include_candidates": T}), enc),
            ("view", lambda b: (view, [b], {}), view), ("view without candidates", lambda b: (view, [b], {"include_candidates": F}), view),
            ("str(sudoku)", lambda b: (BoundV(method(I, scls, "__str__"), b), [], {}), method(I, scls, "__str__"))]
    for con, call, f in jobs:
        def one():
            I.stubs.clear()
            st = State()
            b = I.generic_board(st, "any")
            g, args, kw = call(b)
            check_texts(I, rep, con, where(I, f), I.call(g, args, kw, st), None, "text")
        attempt(rep, "text", con, one)
    cls = shell_class(I)
    for name in ("stack_command",):
        f = cls.find(name)
        if not isinstance(f, FuncV):
            continue

        def one():
            I.stubs.clear()
            st, sh = new_shell(I, State(), T)
            check_texts(I, rep, name, where(I, f), I.call(BoundV(f, sh), [], {}, st), None, "text")
        attempt(rep, "text", name, one)


def check_game_texts(I, rep):
    """What the game prints about changes it makes by itself: one round of its loop on any sudoku."""
    f = method(I, game_class(I), "autofill")

    def one(setting):
        con = "messages of %s" % setting
        I.stubs.clear()
        I.stubs[("sudokutools.notation", "encode")] = lambda I, args, kwargs, s, node: iter([(s, text("coordinates"))])
        I.stubs[("sudokutools.sudoku", "Sudoku.remove_candidates")] = quiet
        st = State()
        st, g = [(s, v) for s, v in I.call(game_class(I), [], {}, st) if s.feasible()][0]
        set_attr(I, st, g, settings=I.new(st, DictRec([("set", (), T, K(n), T if n == setting else F) for n in ("autoremove", "autoset")])))
        b = I.generic_board(st, "any")
        loops = [n for n in ast.walk(f.node) if isinstance(n, ast.While)]
        if len(loops) != 1:
            raise Unsupported("autofill() has no single loop")

        def once(I, n, s, fr):
            for s2, k, v in I.block(n.body, s, fr):
                yield s2, ("n" if k in ("brk", "cont") else k), v
        I.stubs[("while", id(loops[0]))] = once
        outs = [(s, v) for s, v in I.call(BoundV(f, g), [b, T], {}, st) if s.feasible()]
        if not outs:
            raise Unsupported("no outcome")
        rep.count("paths through autofill", len(outs))
        for s, v in outs:
            if isinstance(v, Exc):
                rep.violate("game", con, "%s is raised" % v.name, where(I, f))
                return
        rep.holds("game", con, "%d paths" % len(outs))
    for setting in ("autoremove", "autoset"):
        attempt(rep, "game", "messages of %s" % setting, lambda: one(setting))


def c20(prog):
    rep = Report("C20", prog, RULE, ["numbers and candidates are integers", "writing to the outgoing streams succeeds"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    check_print(I, rep)
    check_actions(I, rep)
    check_steps(I, rep)
    check_own_texts(I, rep)
    check_game_texts(I, rep)
    I.stubs.clear()
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
