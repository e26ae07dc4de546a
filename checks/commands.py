"""C18: command table, supplied arguments, help overview, names that exist."""
import ast

from .lib import *
from sa.program import snippet
from sa.sym import BuiltinV, ExtV, Inst, NONE, ext_missing

RULE = ("abstract interpretation of Shell.execute_line on every command of the table with the commands' functions replaced by recorders: what "
        "reaches the function first must be the sudoku / shell its leading parameters expect (inferred from the class a method belongs to and "
        "from the attributes used on a parameter), as they are when the command runs and not when it was parsed; the help overview and every "
        "single help text are interpreted to their end; every standard library name used exists on this Python")
SHELL = "sudokutools.shell"


def shell_class(I):
    return public(I, SHELL, "Shell")


def new_shell(I, st, interactive=T):
    outs = [(s, v) for s, v in I.call(shell_class(I), [], {"interactive": interactive}, st) if s.feasible()]
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported("Shell() has several outcomes")
    s, sh = outs[0]
    if not isinstance(I.rec(s, sh), Inst):
        raise Unsupported("Shell() is not a plain object")
    return s, sh


def set_sudoku(I, st, sh, board):
    r = I.rec(st, sh)
    if "sudoku" not in r.attrs:
        raise AnalysisBroken("public attribute Shell.sudoku not found")
    at = dict(r.attrs)
    at["sudoku"] = board
    st.heap[sh.id] = Inst(r.cls, at)


def table(I):
    c = public(I, SHELL, "COMMANDS")
    r = I.rec(State(), c) if isinstance(c, Ref) else None
    if r is None or not hasattr(r, "ops"):
        raise Unsupported("COMMANDS is not a table")
    out = []
    from sa.symlib import dict_entries
    ent = dict_entries(r)
    if ent is None:
        raise Unsupported("keys of COMMANDS not understood")
    for k, v in ent:
        if not (isinstance(k, K) and isinstance(k.v, str)):
            raise Unsupported("a key of COMMANDS is not a text")
        fs = []
        v = I.plain(v, State())
        items = v.items if isinstance(v, Tup) else [o[3] for o in v.ops] if isinstance(v, CollV) else [v]
        for x in items:
            if not isinstance(x, (K, Poly)):
                fs.append(x)
        if len(fs) != 1:
            raise Unsupported("entry of command %s" % k.v)
        out.append((k.v, fs[0]))
    return out


def target(f):
    """(function, number of parameters already bound)"""
    if isinstance(f, BoundV):
        return f.func, 1
    if isinstance(f, ClassV):
        i = f.find("__init__")
        return (i, 1) if isinstance(i, FuncV) else (None, 0)
    return (f, 0) if isinstance(f, FuncV) else (None, 0)


def parameters(f):
    g, n = target(f)
    if g is None:
        return None
    a = g.node.args
    return [p.arg for p in a.posonlyargs + a.args][n:], (a.vararg.arg if a.vararg else None)


def api(cls):
    out = set()
    for c in cls.mro():
        if isinstance(c, ClassV):
            out |= set(c.attrs)
    if cls.find("__init__") is not None:
        for n in ast.walk(cls.find("__init__").node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return set(x for x in out if not x.startswith("__"))


def expects(I, f, i, depth=0):
    """'sudoku' | 'shell' | 'data' | None (cannot be told): what parameter i of f (after bound ones) is for."""
    g, n = target(f)
    if g is None:
        return None
    a = g.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    if i + n >= len(ps):
        return None
    name = ps[i + n]
    if i + n == 0 and g.cls is not None:
        for what, c in (("sudoku", I.board_class()), ("shell", shell_class(I))):
            if g.cls is c or c in g.cls.mro() or g.cls in c.mro():
                return what
        return None
    apis = {"sudoku": api(I.board_class()), "shell": api(shell_class(I))}
    builtin = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(tuple)) | set(dir(int))
    used = set()
    for x in ast.walk(g.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name:
            used.add(x.attr)
    for what, names in apis.items():
        other = apis["shell" if what == "sudoku" else "sudoku"]
        if (used & names) - builtin - other:
            return what
    if name in ("sudoku", "shell"):
        return name
    if depth < 3:
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                for j, y in enumerate(x.args):
                    if isinstance(y, ast.Name) and y.id == name:
                        h = I.glob(g.mod, x.func.id)
                        if isinstance(h, (FuncV, BoundV)):
                            e = expects(I, h, j, depth + 1)
                            if e in ("sudoku", "shell"):
                                return e
    return "data"


def recorder(I, log, name, result=None):
    def go(I, args, kwargs, st, node):
        log.append((name, list(args), dict(kwargs), st))
        yield st, (result if result is not None else NONE)
    return go


def key_of(f):
    g = f.func if isinstance(f, BoundV) else f
    return (g.mod, g.name) if isinstance(g, ClassV) else (g.mod, g.qual)


def kind(I, v, sh, st):
    if v == sh:
        return "shell"
    if isinstance(v, Ref) and not isinstance(I.rec(st, v), Inst):
        from sa.sym import Board
        if isinstance(I.rec(st, v), Board):
            return "sudoku"
    return "data"


def line(I, st, sh, text):
    f = method(I, shell_class(I), "execute_line")
    outs = [(s, v) for s, v in I.call(BoundV(f, sh), [K(text)], {}, st) if s.feasible()]
    return outs


def check_arguments(I, rep, cmds):
    for name, f in cmds:
        con = "command %s" % name
        if not isinstance(f, (FuncV, BoundV, ClassV)):
            rep.check(False if isinstance(f, (K, Tup)) else None, "bound-to-function", con, message="bound to %r" % (f,), loc=SHELL)
            continue
        log = []
        I.stubs.clear()
        st, sh = new_shell(I, State())
        b = I.generic_board(st, "current")
        set_sudoku(I, st, sh, b)
        I.stubs[key_of(f)] = recorder(I, log, name)
        errs = []
        I.stubs[(SHELL, "Shell.error")] = recorder(I, errs, "error")
        try:
            outs = line(I, st, sh, name)
        except Unsupported as e:
            rep.undecided("supplied-arguments", con, "no transfer function: %s" % e)
            continue
        rep.count("commands interpreted")
        if errs or any(isinstance(v, Exc) for _s, v in outs):
            rep.violate("supplied-arguments", con, "the bare command word does not reach its function: %s" % (
                errs and "reported as error %r" % (errs[0][1],) or outs), where(I, method(I, shell_class(I), "execute_line")))
            continue
        if len(log) != 1:
            rep.check(False if not log and len(outs) == 1 else None, "supplied-arguments", con, message="the function is called %d times" % len(log),
                      loc=where(I, method(I, shell_class(I), "execute_line")))
            continue
        args, kwargs, s = log[0][1:]
        if isinstance(f, BoundV):
            args = args[1:]
        ps = parameters(f)
        if ps is None or kwargs:
            rep.undecided("supplied-arguments", con, "signature or keywords not understood")
            continue
        ok = True
        got = [kind(I, v, sh, s) for v in args]
        for i, g in enumerate(got):
            if g == "data":
                rep.violate("supplied-arguments", con, "an argument that is neither the sudoku nor the shell is supplied: %r" % (args[i],), where(I, f))
                ok = False
                break
            if g == "sudoku" and args[i] != b:
                rep.violate("supplied-arguments", con, "supplied with another sudoku than the current one", where(I, f))
                ok = False
                break
            if i >= len(ps[0]) and not ps[1]:
                rep.violate("supplied-arguments", con, "the %s is supplied, but %s has only %d parameters" % (g, f, len(ps[0])), where(I, f))
                ok = False
                break
            e = expects(I, f, i) if i < len(ps[0]) else None
            if e in ("sudoku", "shell") and e != g:
                rep.violate("supplied-arguments", con, "parameter %s expects the %s but the %s is supplied" % (ps[0][i], e, g), where(I, f))
                ok = False
                break
            if e not in ("sudoku", "shell") and unused(f, ps[0][i]) is False and e == "data" and is_data(f, ps[0][i]):
                rep.violate("supplied-arguments", con, "parameter %s is used as plain data but the %s is supplied" % (ps[0][i], g), where(I, f))
                ok = False
                break
        if ok and len(got) < len(ps[0]):
            for j in range(len(got), len(ps[0])):
                e = expects(I, f, j)
                if e in ("sudoku", "shell"):
                    rep.violate("supplied-arguments", con, "parameter %s expects the %s, which is not supplied" % (ps[0][j], e), where(I, f))
                    ok = False
                    break
        if ok:
            rep.holds("supplied-arguments", con, "%s(%s, ...)" % (key_of(f)[1], ", ".join(got)))
    I.stubs.clear()


def unused(f, name):
    g, _n = target(f)
    return not any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(g.node))


def is_data(f, name):
    """Is the parameter only used in ways no sudoku or shell supports (arithmetic, comparison with numbers)?"""
    g, _n = target(f)
    for x in ast.walk(g.node):
        if isinstance(x, (ast.BinOp, ast.Compare)) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in getattr(x, "ops", [])):
            kids = [x.left] + ([x.right] if isinstance(x, ast.BinOp) else list(x.comparators))
            if any(isinstance(k, ast.Name) and k.id == name for k in kids):
                return True
    return False


def check_user_arguments(I, rep, cmds):
    """User arguments follow the supplied ones, in order; keywords by name."""
    names = [n for n, f in cmds if isinstance(f, FuncV) and expects(I, f, 0) == "sudoku"]
    if not names:
        rep.undecided("user-arguments", "commands", "no command takes the sudoku")
        return
    for name, f in cmds:
        if not isinstance(f, (FuncV, BoundV, ClassV)):
            continue
        log, errs = [], []
        I.stubs.clear()
        try:
            st, sh = new_shell(I, State())
            b = I.generic_board(st, "current")
            set_sudoku(I, st, sh, b)
            I.stubs[key_of(f)] = recorder(I, log, name)
            I.stubs[(SHELL, "Shell.error")] = recorder(I, errs, "error")
            outs = line(I, st, sh, name + " 11 'ab' (1,2) x=13 y='='")
        except Unsupported as e:
            rep.undecided("user-arguments", name, "no transfer function: %s" % e)
            continue
        if errs or len(log) != 1 or any(isinstance(v, Exc) for _s, v in outs):
            rep.check(False if len(outs) == 1 and (errs or not log) else None, "user-arguments", name,
                      message="a line with arguments does not reach the function", loc=where(I, f))
            continue
        args, kwargs, s = log[0][1:]
        data = [a for a in args if kind(I, a, sh, s) == "data" and not (isinstance(f, BoundV) and a == f.selfv)]
        front = [kind(I, a, sh, s) for a in args]
        want = [P(11), K("ab"), Tup([P(1), P(2)])]
        good = data == want and args[-3:] == want and kwargs == {"x": P(13), "y": K("=")}
        rep.check(good, "user-arguments", name, "follow the supplied ones in order",
                  "the line '%s 11 'ab' (1,2) x=13 y='='' reaches the function as %s %s" % (name, args, kwargs), where(I, f))
    I.stubs.clear()


def check_late(I, rep, cmds):
    """A command recorded in a loop sees the sudoku of the moment it is executed."""
    done = False
    f_exec = method(I, shell_class(I), "execute_line")
    for name, f in cmds:
        if not isinstance(f, FuncV) or expects(I, f, 0) not in ("sudoku", "shell"):
            continue
        if f.cls is not None and f.cls is shell_class(I) and name in ("loop", "exit", "help", "push", "pop", "stack"):
            continue
        log, errs = [], []
        I.stubs.clear()
        try:
            st, sh = new_shell(I, State())
            a, b = I.generic_board(st, "before"), I.generic_board(st, "after")
            set_sudoku(I, st, sh, a)
            I.stubs[key_of(f)] = recorder(I, log, name)
            I.stubs[(SHELL, "Shell.error")] = recorder(I, errs, "error")
            for text in ("loop 1", name):
                outs = line(I, st, sh, text)
                if len(outs) != 1 or isinstance(outs[0][1], Exc):
                    raise Unsupported("recording a loop has several outcomes")
                st = outs[0][0]
            if log:
                raise Unsupported("%s is executed while a loop is recorded" % name)
            set_sudoku(I, st, sh, b)
            outs = line(I, st, sh, "loop end")
            if len(outs) != 1 or isinstance(outs[0][1], Exc) or errs or len(log) != 1:
                raise Unsupported("running a loop has several outcomes")
        except Unsupported as e:
            rep.undecided("late-lookup", name, "no transfer function: %s" % e)
            continue
        done = True
        bad = a in log[0][1] or a in log[0][2].values()
        rep.check(not bad, "late-lookup", name, "the sudoku current at execution is supplied",
                  "a command recorded in a loop gets the sudoku that was current when it was parsed", where(I, f_exec))
    # a later command on the same line sees the result of an earlier one
    new = [(n, f) for n, f in cmds if n == "new"]
    views = [(n, f) for n, f in cmds if isinstance(f, FuncV) and expects(I, f, 0) == "sudoku" and n != "new"]
    for n0, f0 in new[:1]:
        for n1, f1 in views:
            log, made = [], []
            I.stubs.clear()
            try:
                st, sh = new_shell(I, State())
                a = I.generic_board(st, "before")
                b = I.generic_board(st, "made")
                set_sudoku(I, st, sh, a)
                I.stubs[key_of(f0)] = recorder(I, made, n0, b)
                I.stubs[key_of(f1)] = recorder(I, log, n1)
                outs = line(I, st, sh, "%s;%s" % (n0, n1))
                if len(outs) != 1 or isinstance(outs[0][1], Exc) or len(log) != 1 or len(made) != 1:
                    raise Unsupported("several outcomes")
            except Unsupported as e:
                rep.undecided("result-becomes-current", "%s;%s" % (n0, n1), "no transfer function: %s" % e)
                continue
            rep.check(b in log[0][1], "result-becomes-current", "%s;%s" % (n0, n1), "",
                      "the second command does not get the sudoku made by the first", where(I, f_exec))
    I.stubs.clear()
    return done


def text_of(I, s, v):
    v = I.plain(v, s)
    if isinstance(v, K):
        return str(v.v)
    if isinstance(v, StrV):
        return "".join(str(p.v) if isinstance(p, K) else p if isinstance(p, str) else "\0" for p in v.parts)
    return None


def check_help(I, rep, cmds):
    H_ = method(I, shell_class(I), "execute_line")
    I.stubs.clear()
    shown = []
    errs = []

    def show_(I, args, kwargs, st, node):
        shown.append((args, st))
        yield st, NONE
    out = I.glob(SHELL, "Shell").find("_print")
    if not isinstance(out, FuncV):
        rep.undecided("help", "overview", "Shell._print not found")
        return

    def ask(text):
        del shown[:], errs[:]
        I.stubs.clear()
        st, sh = new_shell(I, State())
        set_sudoku(I, st, sh, I.generic_board(st, "current"))
        I.stubs[(SHELL, "Shell._print")] = show_
        I.stubs[(SHELL, "Shell.error")] = recorder(I, errs, "error")
        outs = line(I, st, sh, text)
        I.stubs.clear()
        if errs:
            a = errs[0][1]
            return "error", repr(a[-1]) if a else ""
        for s, v in outs:
            if isinstance(v, Exc):
                return "error", v.name
        if len(outs) != 1 or len(shown) != 1:
            return None, "%d outcomes, %d texts" % (len(outs), len(shown))
        a, s = shown[0]
        t = text_of(I, s, a[1])
        return ("text", t) if t is not None else (None, "text not understood: %r" % (a[1],))
    try:
        k, t = ask("help")
        if k == "error":
            rep.violate("help-overview", "help", "the overview cannot be shown: %s" % t, where(I, H_))
        elif k is None:
            rep.undecided("help-overview", "help", t)
        else:
            lines = t.split("\n")
            for name, f in cmds:
                n = sum(1 for x in lines if x.lstrip(" -*").split(" ")[0].rstrip(":") == name and x.startswith(" "))
                if n == 1:
                    rep.holds("help-overview", "command %s" % name, "listed once")
                else:
                    m = sum(x.lstrip(" -*").startswith(name) for x in lines)
                    rep.check(False if n > 1 or m == 0 else None, "help-overview", "command %s" % name,
                              message="listed %d times in the help overview" % n, loc=where(I, method(I, shell_class(I), "help_command")))
    except Unsupported as e:
        rep.undecided("help-overview", "help", "no transfer function: %s" % e)
    for name, f in cmds:
        try:
            k, t = ask("help " + name)
        except Unsupported as e:
            rep.undecided("help-text", name, "no transfer function: %s" % e)
            continue
        if k == "error":
            rep.violate("help-text", name, "help %s fails: %s" % (name, t), where(I, H_))
        elif k is None:
            rep.undecided("help-text", name, t)
        else:
            ps = parameters(f)
            first = t.split("\n")[0]
            miss = [p for p in (ps[0] if ps else []) if p not in first]
            rep.check(not miss, "help-text", name, first, "the help text does not name parameter %s: %s" % (miss, first), where(I, f))


def guarded(node, attr):
    """Inside a test for the feature or the Python version, or a handler of the resulting error?"""
    child, n = node, getattr(node, "_parent", None)
    while n is not None:
        if isinstance(n, (ast.If, ast.IfExp)) and child is not n.test:
            src = ast.unparse(n.test)
            if "hasattr" in src or "version" in src or "getattr" in src or "PY2" in src or "PY3" in src:
                return True
        if isinstance(n, ast.Try) and child in n.body:
            return True
        if isinstance(n, ast.ExceptHandler):
            return True
        if isinstance(n, ast.BoolOp) and "hasattr" in ast.unparse(n):
            return True
        child, n = n, getattr(n, "_parent", None)
    return False


def check_names(I, rep, prog):
    """Every module.attribute and imported name of the standard library exists; every global name is defined."""
    bad = 0
    for mod, tree in sorted(prog.trees.items()):
        seen = 0
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and not n.module.startswith("sudokutools") and n.module != "__future__":
                for a in n.names:
                    seen += 1
                    if a.name != "*" and ext_missing(n.module, a.name) and not guarded(n, a.name):
                        bad += 1
                        rep.violate("name-exists", "%s: %s.%s" % (mod, n.module, a.name), "does not exist on this Python", prog.loc(n))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                parts, b = [n.attr], n.value
                while isinstance(b, ast.Attribute):
                    parts.append(b.attr)
                    b = b.value
                if not isinstance(b, ast.Name) or local_name(n, b.id):
                    continue
                v = I.glob(mod, b.id)
                if isinstance(v, ExtV):
                    q = v.name
                    for p in reversed(parts[1:]):
                        q += "." + p
                    seen += 1
                    if ext_missing(q, parts[0]) and not guarded(n, parts[0]):
                        bad += 1
                        rep.violate("name-exists", "%s: %s.%s" % (mod, q, parts[0]), "does not exist on this Python", prog.loc(n))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not local_name(n, n.id) and not class_name(n, n.id):
                seen += 1
                if not module_name(tree, n.id) and not hasattr(__import__("builtins"), n.id) and n.id not in (
                        "__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__") and not guarded(n, n.id):
                    bad += 1
                    rep.violate("name-exists", "%s: %s in %s" % (mod, n.id, snippet(n)), "the name %s is not defined" % n.id, prog.loc(n))
        rep.count("names resolved", seen)
    if not bad:
        rep.holds("name-exists", "all modules", "every global and standard library name resolves")


def bound_names(fn):
    from sa.sym import assigned_names
    out = set()
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.add(p.arg)
    if isinstance(fn, ast.Lambda):
        return out
    return out | assigned_names(fn.body)


def local_name(node, name):
    n = getattr(node, "_parent", None)
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and name in bound_names(n):
            return True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.target)):
                    return True
        n = getattr(n, "_parent", None)
    return False


def class_name(node, name):
    n = getattr(node, "_parent", None)
    if isinstance(n, ast.ClassDef) or True:
        while n is not None:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                        return True
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
                        return True
            n = getattr(n, "_parent", None)
    return False


def module_name(tree, name):
    if not hasattr(tree, "_names"):
        names = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split(".")[0])
                    if a.name == "*":
                        names.add("*")
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
        tree._names = names
    return name in tree._names or "*" in tree._names


def c18(prog):
    rep = Report("C18", prog, RULE, ["string and dictionary semantics as modelled in sa/symlib.py",
                                     "the supported Python is the one running the analysis (standard library names are looked up there)"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    check_names(I, rep, prog)
    if not I.templates:
        return rep
    try:
        cmds = table(I)
    except Unsupported as e:
        rep.undecided("table", "COMMANDS", str(e))
        return rep
    rep.count("commands", len(cmds))
    try:
        check_arguments(I, rep, cmds)
        check_user_arguments(I, rep, cmds)
        check_late(I, rep, cmds)
        check_help(I, rep, cmds)
    except Unsupported as e:
        rep.undecided("shell", "Shell", "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
