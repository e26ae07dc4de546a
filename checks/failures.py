"""C19: failures of command lines are reported and never escape."""
import os
import string

from .lib import *
from .commands import SHELL, key_of, line, method, new_shell, public, set_sudoku, shell_class, table
from .saved import game_class, heavy, set_attr
from sa.sym import Board, BoundV, BuiltinV, Coll, Exc, ExtV, Gen, Inst, K, MethV, NONE, ObjV
from sa.symlib import LITERAL_FAILS, text

RULE = ("abstract interpretation of Shell.execute_line on lines made of arbitrary words (any command, any arguments, recorded in a loop or not) with every "
        "command function allowed to return anything or raise any exception and literal_eval() allowed any of its failures: no exception escapes, each "
        "command that fails or is not reached writes to stderr, and a non-interactive shell then ends by SystemExit with a status that is not 0; the own "
        "failures of the shell's commands, Shell.run(), main() and one round of the game the same way")
RAISED = ("ValueError", "KeyError", "IndexError", "TypeError", "AttributeError", "StopIteration", "RecursionError", "MemoryError", "ZeroDivisionError",
          "OverflowError", "AssertionError", "NotImplementedError", "RuntimeError", "OSError", "UnicodeError", "EOFError", "NameError", "SyntaxError", "Exception of its own")
NAMESPACE = ClassV("Namespace", "argparse")
FEW = ("ValueError", "KeyError", "TypeError", "RecursionError", "OSError", "Exception of its own")
FRAME = string.whitespace + ";"


def word(name, more=""):
    return text(name, FRAME + more)


def sentence(*parts):
    out = []
    for p in parts:
        out += [p] if isinstance(p, str) else list(p.parts)
    return StrV(out)


def reports(ev):
    """Is the event something written to standard error?"""
    if ev[0] == "ext" and ev[1] == "sys.stderr.write":
        return bool(ev[2])
    return ev[0] == "print" and isinstance(ev[2].get("file"), ExtV) and ev[2]["file"].name == "sys.stderr"


def status(v):
    """Exit status of a SystemExit: True (not 0), False (0), None."""
    if not v.args:
        return False
    a = v.args[0]
    if a == NONE or a == F:
        return False
    if isinstance(a, Poly):
        return a != ZERO if a.isconst() else None
    return True if isinstance(a, (K, StrV)) or a == T else None


def anything(name, raised=RAISED):
    """A command function: gives nothing, a sudoku or any value, or raises any exception."""
    def go(I, args, kwargs, st, node):
        def out(*ev):
            s = st.fork()
            s.ev += ev
            return s
        yield out(("called", name)), NONE
        s = out(("called", name))
        yield s, I.generic_board(s, "made by %s" % (name,))
        yield out(("called", name)), P(Term("result", str(name)))
        for x in raised:
            yield out(("failed", name, x)), Exc(x, (), node)
    return go


def literals(I, args, kw, st, node):
    yield st.fork(), P(Term("literal", args[0]))
    for n in LITERAL_FAILS:
        s = st.fork()
        s.ev += (("literal", n),)
        yield s, Exc(n, (), node)


def quiet(I, args, kwargs, st, node):
    yield st, NONE


class World(object):
    """A fresh shell whose command functions may do anything."""
    def __init__(self, I, cmds, interactive, real=(), raised=RAISED):
        I.stubs.clear()
        self.I = I
        st, sh = new_shell(I, State(), T if interactive else F)
        set_sudoku(I, st, sh, I.generic_board(st, "current"))
        self.st, self.sh = st, sh
        for name, f in cmds:
            if isinstance(f, (FuncV, BoundV, ClassV)) and name not in real:
                I.stubs[key_of(f)] = anything(name, raised)
        I.stubs["ast.literal_eval"] = literals
        if (SHELL, "Shell._print") not in I.stubs:
            I.stubs[(SHELL, "Shell._print")] = quiet

    def line(self, s, t):
        f = method(self.I, shell_class(self.I), "execute_line")
        return [(s2, v) for s2, v in self.I.call(BoundV(f, self.sh), [K(t) if isinstance(t, str) else t], {}, s.fork()) if s2.feasible()]


def judge(rep, rule, con, loc, outs, start, count, words, interactive, D):
    """count: number of commands of the line."""
    unknown = None
    if not outs:
        rep.undecided(rule, con, "no outcome")
        return
    for s, v in outs:
        ev = s.ev[start:]
        if isinstance(v, Exc) and v.name != "SystemExit":
            rep.violate(rule, con, "%s escapes%s" % (v.name, story(ev)), loc)
            return
        pending = done = told = 0
        failed = False
        for e in ev:
            if e[0] == "called":
                if pending:
                    failed = True
                done += 1
            elif e[0] == "failed":
                pending += 1
                failed = True
            elif reports(e):
                told += 1
                if pending:
                    pending -= 1
                    done += 1
                failed = True
        if pending:
            rep.violate(rule, con, "a failing command is not reported on stderr%s" % story(ev), loc)
            return
        if isinstance(v, Exc):
            ok = status(v)
            if interactive:
                rep.violate(rule, con, "the interactive shell ends%s" % story(ev), loc)
                return
            if ok is False:
                rep.violate(rule, con, "the shell ends with status 0 after a failure%s" % story(ev), loc)
                return
            if ok is None:
                unknown = "exit status not known"
            continue
        if not interactive and (failed or told):
            rep.violate(rule, con, "a non-interactive shell goes on after a failing command%s" % story(ev), loc)
            return
        calls = sum(1 for e in ev if e[0] in ("called", "failed"))
        alone = told - sum(1 for e in ev if e[0] == "failed")
        if calls + alone < count:
            # words that are empty are no command
            if any(D(s, w) for w in words):
                continue
            rep.violate(rule, con, "a command is neither executed nor reported%s" % story(ev), loc)
            return
    if unknown:
        rep.undecided(rule, con, unknown)
    else:
        rep.holds(rule, con, "%d paths" % len(outs))


def story(ev):
    out = []
    for e in ev:
        if e[0] == "failed":
            out.append("%s raises %s" % (e[1], e[2]))
        elif e[0] == "called":
            out.append("%s is executed" % (e[1],))
        elif e[0] == "literal":
            out.append("an argument makes literal_eval() fail with %s" % e[1])
        elif reports(e):
            out.append("an error is reported")
    return " (%s)" % "; ".join(out) if out else ""


def empty(I, st, w):
    return I.decide(I.truth(w, st), st) is False or I.decide(mkeq(w, K("")), st) is True


FORMS = [
    ("F", lambda F, A, B: [F], 1),
    ("F A", lambda F, A, B: [F, " ", A], 1),
    ("F A B", lambda F, A, B: [F, " ", A, " ", B], 1),
    ("F  A", lambda F, A, B: [F, "  ", A], 1),
    ("F name=A", lambda F, A, B: [F, " name=", A], 1),
    ("F A name=B", lambda F, A, B: [F, " ", A, " name=", B], 1),
    ("F=A B", lambda F, A, B: [F, "=", A, " ", B], 1),
]


def check_lines(I, rep, cmds):
    f = method(I, shell_class(I), "execute_line")
    loc = where(I, f)
    w = {"F": word("F"), "A": word("A"), "B": word("B"), "G": word("G")}
    for interactive in (True, False):
        kind = "interactive" if interactive else "non-interactive"
        for name, form, count in FORMS:
            con = "line '%s', %s" % (name, kind)
            attempt(rep, "line", con, lambda: one_line(I, rep, cmds, con, loc, sentence(*form(w["F"], w["A"], w["B"])), count, [w["F"]], interactive, ()))
        some = cmds[:2]
        for name, form in (("F; G A", ["F", "; ", "G", " ", "A"]), ("F A; G", ["F", " ", "A", "; ", "G"])):
            con = "line '%s', %s" % (name, kind)
            attempt(rep, "line", con, lambda: one_line(I, rep, some, con, loc, sentence(*[w.get(x, x) for x in form]), 2, [w["F"], w["G"], w["A"]], interactive, (),
                                                       rest=[n for n, _f in cmds[2:]]))


def attempt(rep, rule, con, f):
    fresh_budget()
    try:
        f()
    except Unsupported as e:
        rep.undecided(rule, con, "no transfer function: %s" % e)
    except AnalysisBroken:
        raise
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        rep.undecided(rule, con, "%s in the interpreter: %s" % (type(e).__name__, e))


def one_line(I, rep, cmds, con, loc, t, count, words, interactive, before, rest=()):
    W = World(I, cmds, interactive, raised=FEW if rest or t.parts[1:] else RAISED)
    st = W.st
    for n in rest:                       # two commands stand for all in lines of several commands
        for w in words:
            st.add(fnot(mkeq(w, K(n))))
    for b in before:
        outs = W.line(st, b)
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("'%s' has several outcomes" % b)
        st = outs[0][0]
    outs = W.line(st, t)
    rep.count("paths through execute_line", len(outs))
    judge(rep, "line", con, loc, outs, len(st.ev), count, words, interactive, lambda s, w: empty(I, s, w))


def check_loop(I, rep, cmds):
    """Commands recorded in a loop: wrong ones are reported at once, failing ones when the loop runs."""
    f = method(I, shell_class(I), "loop_command")
    loc = where(I, f)
    F1, A = word("F"), word("A")
    for interactive in (True, False):
        kind = "interactive" if interactive else "non-interactive"

        def recorded():
            con = "a recorded line, %s" % kind
            W = World(I, cmds, interactive, real=("loop",))
            I.stubs["ast.literal_eval"] = concrete_literals
            st = the_only(W.line(W.st, "loop 2"))
            n = len(st.ev)
            st.add(fnot(mkeq(F1, K("loop"))))
            outs = W.line(st, sentence(F1, " ", A))
            rep.count("paths through execute_line", len(outs))
            # what is recorded is not executed yet
            judge(rep, "loop", con, loc, outs, n, 0, [F1], interactive, lambda s, w: True)
        attempt(rep, "loop", "a recorded line, %s" % kind, recorded)

        def running():
            con = "a failing command in a loop, %s" % kind
            W = World(I, cmds, interactive, real=("loop",))
            I.stubs["ast.literal_eval"] = concrete_literals
            name = [n for n, _f in cmds if n not in ("loop", "exit")][0]
            st = the_only(W.line(the_only(W.line(W.st, "loop 2")), name))
            outs = W.line(st, "loop end")
            rep.count("paths through execute_line", len(outs))
            judge(rep, "loop", con, loc, outs, len(st.ev), 2 if interactive else 0, [], interactive, lambda s, w: False)
        attempt(rep, "loop", "a failing command in a loop, %s" % kind, running)


def concrete_literals(I, args, kw, st, node):
    from sa.symlib import x_literal_eval
    if isinstance(args[0], K):
        yield from x_literal_eval(I, args, kw, st, node)
    else:
        yield from literals(I, args, kw, st, node)


def the_only(outs):
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported("preparation has several outcomes")
    return outs[0][0]


# lines of which the last one must fail: (sudokus on the stack, lines)
OWN = [
    (0, ["nonsense"]), (0, ["help nonsense"]), (0, ["loop end"]), (0, ["loop 0"]), (0, ["loop -1"]), (0, ["loop 'x'"]), (0, ["loop 2", "loop 3"]),
    (0, ["loop None"]), (0, ["loop [1]"]), (0, ["loop"]), (0, ["loop (1,2)"]),
    (0, ["pop"]), (0, ["pop 0"]), (1, ["pop 1"]), (1, ["pop -1"]), (1, ["pop 'x'"]), (2, ["pop 2"]), (1, ["pop [0]"]), (1, ["pop (0,1)"]), (1, ["pop", "pop"]),
    (0, ["solve"]), (0, ["push 1"]), (0, ["stack 1"]), (0, ["exit 1"]), (0, ["set 1"]), (0, ["get 1"]), (0, ["get 1 1 1 1 1 1 1 1"]), (0, ["view nonsense=1"]),
    (0, ["set row=1"]), (0, ["help 1 2 3 4"]), (0, ["set a b c"]), (0, ["print 1"]), (0, ["generate nonsense=1"]),
]


def check_own(I, rep, cmds):
    cls = shell_class(I)
    for n, lines in OWN:
        name = lines[-1].split(" ")[0]
        if name != "nonsense" and name not in dict(cmds):
            continue
        f = dict(cmds).get(name)
        loc = where(I, f) if isinstance(f, (FuncV, BoundV)) else where(I, method(I, cls, "execute_line"))
        for interactive in (True, False):
            con = "%s with %d sudokus on the stack, %s" % (" / ".join(lines), n, "interactive" if interactive else "non-interactive")
            attempt(rep, "own", con, lambda: one_own(I, rep, con, loc, n, lines, interactive))


def one_own(I, rep, con, loc, n, lines, interactive):
    I.stubs.clear()
    W = World(I, (), interactive)
    errs = []
    heavy(I, errs)
    del I.stubs[(SHELL, "Shell.error")]
    del I.stubs["ast.literal_eval"]
    for m in ("dlx", "bruteforce"):
        I.stubs[("sudokutools.solve", m)] = lambda I, args, kwargs, st, node: iter([(st, I.new(st, Gen(None, None, CollV("gen", []), 0)))])
    for k in [("sudokutools.generate", "generate"), ("sudokutools.sudoku", "view"), ("sudokutools.sudoku", "Sudoku.encode")]:
        I.stubs.pop(k, None)
    st, sh = W.st, W.sh
    saved = [I.generic_board(st, "saved%d" % i) for i in range(n)]
    set_attr(I, st, sh, stack=I.newcoll(st, "list", [("+", (), T, b) for b in saved]))
    for t in lines[:-1]:
        outs = [(s, v) for s, v in W.line(st, t)]
        st = the_only(outs)
    start = len(st.ev)
    outs = W.line(st, lines[-1])
    rep.count("paths through execute_line", len(outs))
    if not outs:
        raise Unsupported("no outcome")
    for s, v in outs:
        ev = s.ev[start:]
        if isinstance(v, Exc) and v.name != "SystemExit":
            rep.violate("own", con, "%s escapes" % v.name, loc)
            return
        if not any(reports(e) for e in ev):
            if len(outs) > 1:
                raise Unsupported("several outcomes")
            rep.violate("own", con, "the failure is not reported on stderr", loc)
            return
        if isinstance(v, Exc) and interactive:
            rep.violate("own", con, "the interactive shell ends", loc)
            return
        if not interactive and not isinstance(v, Exc):
            rep.violate("own", con, "a non-interactive shell goes on after the failure", loc)
            return
        if isinstance(v, Exc) and status(v) is not True:
            if status(v) is None:
                raise Unsupported("exit status")
            rep.violate("own", con, "the shell ends with status 0", loc)
            return
    rep.holds("own", con, "reported")


def check_run(I, rep):
    """Shell.run() hands every line on and lets SystemExit through."""
    f = method(I, shell_class(I), "run")
    loc = where(I, f)
    cases = [("one line", ["set 1\n"]), ("two lines", ["set 1\n", "get 2\n"]), ("empty lines", ["\n", "   \n", "get 2\n"]), ("comment", ["# x\n", "get 1 # y\n"]),
             ("wrapped line", ["set \\\n", "1 2\n"]), ("last line without newline", ["get 1"]), ("wrapped last line", ["get \\"])]
    for name, lines in cases:
        for interactive in (True, False):
            con = "run with %s, %s" % (name, "interactive" if interactive else "non-interactive")
            attempt(rep, "run", con, lambda: one_run(I, rep, con, loc, lines, interactive))


def one_run(I, rep, con, loc, lines, interactive):
    W = World(I, (), interactive)
    st, sh = W.st, W.sh
    infile = Term("infile")
    set_attr(I, st, sh, infile=infile)

    def read(I, o, args, kwargs, s, node):
        k = sum(1 for e in s.ev if e[0] == "read")
        s2 = s.fork()
        s2.ev += (("read",),)
        yield s2, K(lines[k] if k < len(lines) else "")
    I.stubs[("method", "readline")] = read

    def execute(I, args, kwargs, s, node):
        s2 = s.fork()
        s2.ev += (("line", args[-1]),)
        yield s2, NONE
        s3 = s.fork()
        s3.ev += (("line", args[-1]), ("exits",))
        yield s3, Exc("SystemExit", (P(1),), node)
    I.stubs[(SHELL, "Shell.execute_line")] = execute
    outs = [(s, v) for s, v in I.call(BoundV(method(I, shell_class(I), "run"), sh), [], {}, st) if s.feasible()]
    rep.count("paths through run", len(outs))
    if not outs:
        raise Unsupported("no outcome")
    for s, v in outs:
        ended = [i for i, e in enumerate(s.ev) if e[0] == "exits"]
        if isinstance(v, Exc):
            if v.name != "SystemExit":
                rep.violate("run", con, "%s escapes" % v.name, loc)
                return
            if not ended:
                rep.violate("run", con, "the shell ends without a failing command", loc)
                return
            if status(v) is False:
                rep.violate("run", con, "the exit status of a failing command is lost", loc)
                return
        elif ended:
            rep.violate("run", con, "a failing command does not end the non-interactive shell with its status: SystemExit is caught", loc)
            return
    rep.holds("run", con, "%d paths" % len(outs))


def check_main(I, rep):
    mod = "sudokutools.__main__"
    try:
        f = public(I, mod, "main")
    except AnalysisBroken:
        raise
    loc = where(I, f)
    for what in ("file", "missing file", "command", "stdin"):
        con = "main with %s" % what
        attempt(rep, "main", con, lambda: one_main(I, rep, con, loc, f, what))


def one_main(I, rep, con, loc, f, what):
    I.stubs.clear()
    st = State()
    values = {"filename": K("name") if "file" in what else NONE, "command": K("nonsense") if what == "command" else NONE}

    def parser(I, args, kwargs, s, node):
        yield s, Term("parser")
    I.stubs["argparse.ArgumentParser"] = parser

    def use(I, o, args, kwargs, s, node):
        yield s, NONE
    I.stubs[("method", "add_argument")] = use

    def parsed(I, o, args, kwargs, s, node):
        yield s, ObjV(NAMESPACE, values)
    I.stubs[("method", "parse_args")] = parsed

    def opened(I, args, kwargs, s, node):
        if what == "missing file":
            yield s, Exc("OSError", (), node)
        else:
            yield s, Term("infile")
    I.stubs["open"] = opened
    I.stubs["io.open"] = opened

    def tty(I, o, args, kwargs, s, node):
        yield s.fork(), F
        yield s.fork(), T
    I.stubs[("method", "isatty")] = tty
    I.stubs["sys.stdin.isatty"] = lambda I, args, kwargs, s, node: tty(I, None, args, kwargs, s, node)

    def run(I, args, kwargs, s, node):
        sh = args[0]
        on = I.rec(s, sh).attrs.get("interactive")
        s2 = s.fork()
        s2.ev += (("run", on),)
        yield s2, NONE
        s3 = s.fork()
        s3.ev += (("run", on), ("exits",))
        yield s3, Exc("SystemExit", (P(1),), node)
    I.stubs[(SHELL, "Shell.run")] = run
    I.stubs[(SHELL, "Shell._print")] = quiet
    outs = [(s, v) for s, v in I.call(f, [], {}, st) if s.feasible()]
    rep.count("paths through main", len(outs))
    if not outs:
        raise Unsupported("no outcome")
    for s, v in outs:
        runs = [e for e in s.ev if e[0] == "run"]
        ended = any(e[0] == "exits" for e in s.ev)
        if isinstance(v, Exc) and v.name != "SystemExit":
            rep.violate("main", con, "%s escapes" % v.name, loc)
            return
        good = isinstance(v, Exc) and status(v)
        if (ended or what in ("missing file", "command")) and good is not True:
            if good is None:
                raise Unsupported("exit status")
            rep.violate("main", con, "a failing command or file does not lead to a status that is not 0", loc)
            return
        if what in ("missing file", "command") and not any(reports(e) for e in s.ev):
            rep.violate("main", con, "the failure is not reported on stderr", loc)
            return
        if what in ("file", "stdin") and not runs:
            raise Unsupported("the shell is not run")
    rep.holds("main", con, "%d paths" % len(outs))


GAME = ["", "   ", "hint", "candidates", "conflicts", "settings", "check", "undo", "redo", "nonsense", "r1c1=5", "r1c1<>5", "nonsense with words", "=", "<>", "-"]


def check_game(I, rep):
    f = method(I, game_class(I), "run")
    loc = where(I, f)
    for cmd in GAME:
        for n, index in ((1, 0), (2, 1), (2, 0)):
            con = "game line '%s' at state %d of %d" % (cmd, index + 1, n)
            attempt(rep, "game", con, lambda: one_round(I, rep, con, loc, n, index, cmd))


def one_round(I, rep, con, loc, n, index, cmd):
    I.stubs.clear()
    st = State()
    st, g = [(s, v) for s, v in I.call(game_class(I), [], {}, st) if s.feasible()][0]
    hist = [I.generic_board(st, "state%d" % i) for i in range(n)]
    set_attr(I, st, g, sudokus=I.newcoll(st, "list", [("+", (), T, b) for b in hist]), index=P(index), solution=I.generic_board(st, "solution"))
    heavy(I, [])
    told = []

    def ask(I, args, kwargs, s, node):
        if ("asked",) in s.ev:
            yield s, Exc("EOFError")
        else:
            s2 = s.fork()
            s2.ev += (("asked",),)
            yield s2, K(cmd)
    I.stubs["input"] = ask
    I.stubs[("sudokutools.solve", "init_candidates")] = quiet
    I.stubs[(SHELL, "GameShell.autofill")] = quiet
    I.stubs[(SHELL, "GameShell.new_sudoku")] = quiet

    def hints(I, args, kwargs, s, node):
        s1 = s.fork()
        yield s1, I.new(s1, Gen(None, None, CollV("gen", []), 0))
        s2 = s.fork()
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, P(Term("hint")))]), 0))
    I.stubs[("sudokutools.solvers", "hints")] = hints

    def conflicts(I, args, kwargs, s, node):
        s1 = s.fork()
        yield s1, I.new(s1, Gen(None, None, CollV("gen", []), 0))
        s2 = s.fork()
        yield s2, I.new(s2, Gen(None, None, CollV("gen", [("+", (), T, Tup([Tup([P(0), P(0)]), Tup([P(0), P(1)]), P(1)]))]), 0))
    I.stubs[("sudokutools.analyze", "find_conflicts")] = conflicts
    I.stubs[("sudokutools.notation", "encode")] = lambda I, args, kwargs, s, node: iter([(s, K("r1c1"))])

    def act(I, args, kwargs, s, node):
        s2 = s.fork()
        yield s2, NONE
        s2 = s.fork()
        s2.ev += (("failed", "action", "ValueError"),)
        yield s2, Exc("ValueError")
    for c in ("SetNumber", "RemoveCandidates"):
        I.stubs[("sudokutools.actions", c + ".__call__")] = act

    def dec(I, args, kwargs, s, node):
        s1 = s.fork()
        s1.ev += (("failed", "decode_action", "ValueError"),)
        yield s1, Exc("ValueError")
        if "=" in cmd or "<>" in cmd:
            cls = public(I, "sudokutools.actions", "SetNumber" if "=" in cmd else "RemoveCandidates")
            co = Tup([Tup([P(0), P(0)])])
            yield from I.call(cls, [co, P(5) if "=" in cmd else Tup([P(5)])], {}, s.fork())
    I.stubs[("sudokutools.notation", "decode_action")] = dec
    I.stubs["print"] = printed
    res = [(s, v) for s, v in I.call(BoundV(method(I, game_class(I), "run"), g), [], {}, st) if s.feasible()]
    rep.count("rounds of the game interpreted", len(res))
    if not res:
        raise Unsupported("no outcome")
    for s, v in res:
        if isinstance(v, Exc) and v.name != "EOFError":
            rep.violate("game", con, "%s escapes%s" % (v.name, story(s.ev)), loc)
            return
        if not isinstance(v, Exc):
            continue
        fails = [i for i, e in enumerate(s.ev) if e[0] == "failed"]
        if fails and not any(e[0] == "printed" for e in s.ev[fails[-1]:]):
            rep.violate("game", con, "the failure is not reported%s" % story(s.ev), loc)
            return
    rep.holds("game", con, "%d paths" % len(res))


def printed(I, args, kwargs, st, node):
    s = st.fork()
    s.ev += (("printed",),)
    yield s, NONE


def c19(prog):
    rep = Report("C19", prog, RULE, ["literal_eval() fails only with the exceptions its documentation names",
                                     "writing to the outgoing streams succeeds", "decode_action() fails only with ValueError (C07)"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    method(I, shell_class(I), "execute_line")
    try:
        cmds = table(I)
    except Unsupported as e:
        rep.undecided("line", "Shell", "no transfer function: %s" % e)
        return rep
    check_lines(I, rep, cmds)
    check_loop(I, rep, cmds)
    check_own(I, rep, cmds)
    check_run(I, rep)
    check_main(I, rep)
    check_game(I, rep)
    I.stubs.clear()
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
