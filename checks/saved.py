"""C21: saved sudokus (shell stack, undo history) stay as they are and are never the same object as another saved or current one."""
import ast

from .lib import *
from .commands import SHELL, line, method, new_shell, public, recorder, set_sudoku, shell_class, table
from sa.entries import Entries
from sa.heap import Obj, vobj
from sa.program import enclosing, snippet
from sa.sym import Board, Coll, Exc, Gen, Inst, NONE, ObjV

RULE = ("abstract interpretation of the shell on every command line form with a stack of arbitrary sudokus, and of one round of the game for every command "
        "with an arbitrary history: afterwards the saved sudokus are the same objects with the same contents, a new saved one is a fresh object with the "
        "numbers and candidates of the current one, a popped one is gone from the stack; points-to analysis: what is pushed shares no mutable object with the current sudoku")


def attr(I, s, o, name):
    r = I.rec(s, o)
    if name not in r.attrs:
        raise Unsupported("attribute %s not found" % name)
    return r.attrs[name]


def set_attr(I, st, o, **kw):
    r = I.rec(st, o)
    at = dict(r.attrs)
    for k, v in kw.items():
        if k not in at:
            raise AnalysisBroken("attribute %s of %s not found" % (k, r.cls.name))
        at[k] = v
    st.heap[o.id] = Inst(r.cls, at)


def items(I, s, v):
    out = []
    for b, cond, x in I.items_of(v, s):
        if b or cond != T or not isinstance(x, (Ref, K)):
            raise Unsupported("stored sudokus not understood")
        out.append(x)
    return out


def content(I, s, b):
    r = I.rec(s, b)
    return (r.base, tuple(r.log), tuple(sorted((k, repr(v)) for k, v in r.attrs.items()))) if isinstance(r, Board) else None


def same(I, before, s, b):
    return content(I, s, b) == before


def shell_with(I, n, interactive=T):
    st, sh = new_shell(I, State())
    cur = I.generic_board(st, "current")
    saved = [I.generic_board(st, "saved%d" % i) for i in range(n)]
    set_sudoku(I, st, sh, cur)
    set_attr(I, st, sh, stack=I.newcoll(st, "list", [("+", (), T, b) for b in saved]))
    return st, sh, cur, saved


def heavy(I, errs):
    """Stand-ins for functions whose work does not matter here: they return new sudokus or texts."""
    def fresh(name):
        def go(I, args, kwargs, st, node):
            s = st.fork()
            b = I.generic_board(s, "made by " + name)
            yield s, b
        return go

    def text(I, args, kwargs, st, node):
        yield st, K("text")

    def gen(name):
        def go(I, args, kwargs, st, node):
            s = st.fork()
            b = I.generic_board(s, "made by " + name)
            yield s, I.new(s, Gen(None, None, CollV("gen", [("+", (), T, b)]), 0))
        return go
    for mod, f in (("generate", "generate"), ("generate", "generate_from_template"), ("generate", "create_solution")):
        I.stubs[("sudokutools." + mod, f)] = fresh(f)
    for mod, f in (("solve", "dlx"), ("solve", "bruteforce")):
        I.stubs[("sudokutools." + mod, f)] = gen(f)
    I.stubs[("sudokutools.sudoku", "view")] = text
    I.stubs[("sudokutools.sudoku", "Sudoku.encode")] = text
    I.stubs[("sudokutools.sudoku", "Sudoku.decode")] = fresh("decode")
    I.stubs[(SHELL, "clear")] = recorder(I, [], "clear")
    I.stubs[(SHELL, "Shell._print")] = recorder(I, [], "_print")
    I.stubs[(SHELL, "Shell.error")] = recorder(I, errs, "error")


def judge_stack(I, rep, con, loc, s, sh, want, before, cur_ids):
    """want: list of board refs that must be on the stack, in order; 'new' for a fresh one"""
    got = items(I, s, attr(I, s, sh, "stack"))
    if len(got) != len(want):
        rep.violate("stack", con, "the stack has %d sudokus instead of %d" % (len(got), len(want)), loc)
        return False
    now = attr(I, s, sh, "sudoku")
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
        if w != "new" and g != w:
            rep.violate("stack", con, "entry %d of the stack is another sudoku than before" % i, loc)
            ok = False
        elif w != "new" and not same(I, before[w.id], s, w):
            rep.violate("stack", con, "a sudoku on the stack is changed", loc)
            ok = False
        elif got.index(g) != i:
            rep.violate("stack", con, "the same sudoku is on the stack twice", loc)
            ok = False
        elif g == now:
            rep.violate("stack", con, "the current sudoku is the same object as one on the stack", loc)
            ok = False
        if not ok:
            return False
    return True


def run_lines(I, st, sh, texts):
    outs = [st]
    for t in texts:
        nxt = []
        for s in outs:
            for s2, v in line(I, s, sh, t):
                if isinstance(v, Exc):
                    if v.name in ("SystemExit",):
                        continue
                    raise Unsupported("%s escapes" % v.name)
                nxt.append(s2)
        outs = nxt
    return outs


def check_push(I, rep):
    f = method(I, shell_class(I), "push_command")
    loc = where(I, f)
    for n in (0, 1, 2):
        errs = []
        con = "push on a stack of %d" % n
        try:
            I.stubs.clear()
            st, sh, cur, saved = shell_with(I, n)
            heavy(I, errs)
            before = {b.id: content(I, st, b) for b in saved + [cur]}
            outs = run_lines(I, st, sh, ["push"])
            if not outs:
                raise Unsupported("no outcome")
            if errs:
                rep.violate("push", con, "push is reported as an error", loc)
                continue
            for s in outs:
                if attr(I, s, sh, "sudoku") != cur:
                    rep.violate("push", con, "push replaces the current sudoku", loc)
                    continue
                if not judge_stack(I, rep, con, loc, s, sh, saved + ["new"], before, cur):
                    continue
                new = items(I, s, attr(I, s, sh, "stack"))[-1]
                if new == cur or new in saved:
                    rep.violate("push", con, "the pushed sudoku is the same object as the current one or another saved one", loc)
                    continue
                if not isinstance(I.rec(s, new), Board):
                    rep.check(None, "push", con, message="what is pushed is not a sudoku")
                    continue
                fr = Field().tup
                eqs = []
                for kind, what in (("n", "numbers"), ("c", "candidates")):
                    x, y = I.bread(new, kind, fr, s), I.bread(cur, kind, fr, s)
                    eqs.append((what, x, y))
                bad = [w for w, x, y in eqs if decide_equal(I, s, x, y) is False]
                unk = [w for w, x, y in eqs if decide_equal(I, s, x, y) is None]
                if bad:
                    rep.violate("push", con, "the pushed sudoku does not have the %s of the current one" % " and ".join(bad), loc)
                elif unk:
                    rep.undecided("push", con, "%s of the pushed sudoku not understood" % unk)
                else:
                    rep.holds("push", con, "a new sudoku with the same numbers and candidates; the others stay")
        except Unsupported as e:
            rep.undecided("push", con, "no transfer function: %s" % e)
    I.stubs.clear()


def decide_equal(I, s, x, y):
    if x == y:
        return True
    if isinstance(x, CollV) and not x.ops and not (isinstance(y, CollV) and not y.ops):
        return False
    if isinstance(x, (K, Poly)) and not isinstance(y, type(x)):
        return False
    try:
        f = mkeq(x, y)
        d = I.decide(f, s)
        if d is None and isinstance(y, Poly):
            # the two cases of an empty and a filled field
            ds = []
            for s2, b in I.branch(mkeq(y, P(0)), s):
                if s2.feasible():
                    ds.append(I.decide(f, s2))
            d = True if ds and all(v is True for v in ds) else False if any(v is False for v in ds) else None
        return d
    except Exception:
        return None


def check_pop(I, rep):
    f = method(I, shell_class(I), "pop_command")
    loc = where(I, f)
    for n in (0, 1, 2, 3):
        for text in ["pop"] + ["pop %d" % i for i in range(n + 1)] + ["pop -1", "pop position=0"]:
            errs = []
            con = "'%s' on a stack of %d" % (text, n)
            try:
                I.stubs.clear()
                st, sh, cur, saved = shell_with(I, n)
                heavy(I, errs)
                before = {b.id: content(I, st, b) for b in saved + [cur]}
                outs = run_lines(I, st, sh, [text])
                if len(outs) != 1:
                    raise Unsupported("%d outcomes" % len(outs))
                s = outs[0]
                now = attr(I, s, sh, "sudoku")
                got = items(I, s, attr(I, s, sh, "stack"))
                if errs:
                    if now == cur and got == saved:
                        rep.holds("pop", con, "reported as an error, nothing changes")
                    elif now in got:
                        rep.violate("pop", con, "the current sudoku is also on the stack after a failed pop", loc)
                    else:
                        rep.undecided("pop", con, "a failing pop changes the stack")
                    continue
                if now in got:
                    rep.violate("pop", con, "the popped sudoku is still on the stack", loc)
                elif now not in saved:
                    if now == cur:
                        rep.check(False if n and text in ("pop", "pop 0") else None, "pop", con, message="the current sudoku is not replaced by a saved one", loc=loc)
                    else:
                        # a copy is just as good if the entry is gone
                        gone = [b for b in saved if b not in got]
                        rep.check(None if len(gone) == 1 else False, "pop", con,
                                  message="the popped sudoku is a copy, %d entries are gone" % len(gone), loc=loc)
                elif [b for b in saved if b != now] != got:
                    rep.violate("pop", con, "popping one sudoku changes the rest of the stack", loc)
                elif any(not same(I, before[b.id], s, b) for b in saved):
                    rep.violate("pop", con, "popping changes a saved sudoku", loc)
                else:
                    rep.holds("pop", con, "becomes the current one and leaves the stack; the rest stays")
            except Unsupported as e:
                rep.undecided("pop", con, "no transfer function: %s" % e)
    I.stubs.clear()


ARGS = {"set": "0 0 5", "get": "0 0", "set_candidates": "0 0 [1]", "get_candidates": "0 0", "remove_candidates": "0 0 [1]", "loop": "2", "decode": "'1'"}


def check_others(I, rep):
    cmds = table(I)
    f = method(I, shell_class(I), "execute")
    loc = where(I, f)
    todo = [(n, ["%s %s" % (n, ARGS.get(n, ""))]) for n, _f in cmds if n not in ("push", "pop")]
    todo = [(n, [t.strip() for t in ts]) for n, ts in todo]
    todo.append(("push; set", ["push; set 0 0 5"]))
    todo.append(("loop of set", ["loop 1; set 0 0 5; loop end"]))
    todo.append(("loop of new", ["loop 1; new; set 0 0 1; loop end"]))
    todo.append(("pop; set", ["push; pop; set 0 0 5"]))
    todo.append(("push twice", ["push; push"]))
    for name, texts in todo:
        con = "command %s" % name
        errs = []
        try:
            I.stubs.clear()
            st, sh, cur, saved = shell_with(I, 2)
            heavy(I, errs)
            before = {b.id: content(I, st, b) for b in saved}
            outs = run_lines(I, st, sh, texts)
            rep.count("command lines interpreted", len(texts))
            ok = True
            for s in outs:
                got = items(I, s, attr(I, s, sh, "stack"))
                extra = len(got) - len(saved)
                want = saved + ["new"] * {"push; set": 1, "push twice": 2}.get(name, 0)
                ok = ok and judge_stack(I, rep, con, loc, s, sh, want, before, cur)
                if ok and extra > 0 and "set" in name:
                    fr = Tup([P(0), P(0)])
                    a = I.bread(got[-1], "n", fr, s)
                    o = I.bread(saved[0], "n", fr, st)
                    if a == P(5):
                        ok = False
                        rep.violate("stack", con, "setting a number after push changes the pushed sudoku", loc)
            if ok:
                rep.holds("stack", con, "saved sudokus stay as they are")
        except Unsupported as e:
            rep.undecided("stack", con, "no transfer function: %s" % e)
    I.stubs.clear()


GAME = ["hint", "candidates", "conflicts", "settings", "check", "undo", "redo", "r1c1=5", "r1c1<>5", "nonsense"]


def game_class(I):
    return public(I, SHELL, "GameShell")


def check_game(I, rep):
    run = method(I, game_class(I), "run")
    loc = where(I, run)
    A = public(I, "sudokutools.actions", "SetNumber")
    for n, index in ((1, 0), (3, 0), (3, 1), (3, 2)):
        for cmd in GAME:
            con = "'%s' at state %d of %d" % (cmd, index + 1, n)
            try:
                one_round(I, rep, con, loc, A, n, index, cmd)
            except Unsupported as e:
                rep.undecided("history", con, "no transfer function: %s" % e)
            finally:
                I.stubs.clear()


def one_round(I, rep, con, loc, A, n, index, cmd):
    I.stubs.clear()
    st = State()
    outs = [(s, v) for s, v in I.call(game_class(I), [], {}, st) if s.feasible()]
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported("GameShell() has several outcomes")
    st, g = outs[0]
    hist = [I.generic_board(st, "state%d" % i) for i in range(n)]
    sol = I.generic_board(st, "solution")
    set_attr(I, st, g, sudokus=I.newcoll(st, "list", [("+", (), T, b) for b in hist]), index=P(index), solution=sol)
    before = {b.id: content(I, st, b) for b in hist + [sol]}
    touched, asked = [], []
    errs = []
    heavy(I, errs)

    def touch(what, kind):
        def go(I, args, kwargs, s, node):
            bs = [a for a in list(args) + list(kwargs.values()) if isinstance(a, Ref) and isinstance(I.rec(s, a), Board)]
            for b in bs:
                touched.append((what, b, s))
            s2 = s.fork()
            for b in bs:
                I.bwrite(b, "c", Tup([P(0), P(0)]), CollV("frozenset", [("+", (), T, P(7))]), s2)
                if "n" in kind:
                    I.bwrite(b, "n", Tup([P(0), P(1)]), P(7), s2)
            yield s2, NONE
        return go

    def ask(I, args, kwargs, s, node):
        if ("asked",) in s.ev:
            yield s, Exc("EOFError")
        else:
            s2 = s.fork()
            s2.ev = s2.ev + (("asked",),)
            yield s2, K(cmd)
    I.stubs["input"] = ask
    I.stubs[("sudokutools.solve", "init_candidates")] = touch("init_candidates", "c")
    I.stubs[(SHELL, "GameShell.autofill")] = touch("autofill", "cn")
    I.stubs[(SHELL, "GameShell.new_sudoku")] = recorder(I, [], "new_sudoku")

    def hints(I, args, kwargs, s, node):
        s2 = s.fork()
        yield s2, I.new(s2, Gen(None, None, CollV("gen", []), 0))
    I.stubs[("sudokutools.solvers", "hints")] = hints

    def conflicts(I, args, kwargs, s, node):
        s2 = s.fork()
        yield s2, I.new(s2, Gen(None, None, CollV("gen", []), 0))
    I.stubs[("sudokutools.analyze", "find_conflicts")] = conflicts
    I.stubs[("sudokutools.notation", "encode")] = lambda I, args, kwargs, s, node: iter([(s, K("r1c1"))])

    def dec(I, args, kwargs, s, node):
        if cmd == "nonsense":
            yield s, Exc("ValueError")
            return
        cls = A if "=" in cmd else public(I, "sudokutools.actions", "RemoveCandidates")
        co = Tup([Tup([P(0), P(0)])])
        what = P(5) if "=" in cmd else Tup([P(5)])
        for s2, v in I.call(cls, [co, what], {}, s):
            yield s2, v
    I.stubs[("sudokutools.notation", "decode_action")] = dec
    f = method(I, game_class(I), "run")
    res = [(s, v) for s, v in I.call(BoundV(f, g), [], {}, st) if s.feasible()]
    if not res:
        raise Unsupported("no outcome")
    rep.count("rounds of the game interpreted")
    ok = True
    for what, b, s in touched:
        if b in hist:
            rep.violate("history", con, "%s changes a saved state" % what, loc)
            return
    escaped = None
    for s, v in res:
        if isinstance(v, Exc) and v.name != "EOFError":
            escaped = v.name
        got = items(I, s, attr(I, s, g, "sudokus"))
        for i, b in enumerate(hist):
            if not same(I, before[b.id], s, b):
                rep.violate("history", con, "the saved state %d is changed" % i, loc)
                return
        for i, b in enumerate(got):
            if got.index(b) != i:
                rep.violate("history", con, "two states of the history are the same object", loc)
                return
        keep = hist[:index + 1]
        if got[:index + 1] != keep:
            rep.violate("history", con, "states up to the current one are lost or replaced", loc)
            return
        if len(got) > n + 1:
            raise Unsupported("history grows by more than one")
        if cmd in ("undo", "redo") and got != hist:
            rep.violate("history", con, "%s changes the history" % cmd, loc)
            return
    if escaped:
        raise Unsupported("%s escapes" % escaped)
    rep.holds("history", con, "earlier states stay as they are")


def check_sharing(rep, prog):
    """Points-to: no mutable object is reachable both from what push stored and from the current sudoku."""
    E = Entries(prog)
    H = E.H
    for what, f, key in (("Shell.push_command", E.func("shell", "Shell.push_command"), "stack"),):
        seen = {}

        def shell_obj():
            o = H.intern("inst", "shell", ("P:shell",))
            o.meta["cls"] = H.lookup(SHELL, "Shell")
            H.store(o, "sudoku", E.board("sudoku"))
            st = H.intern("list", "stack", ("P:shell",))
            H.store(o, key, vobj(st))
            seen["shell"] = o
            return vobj(o)
        E.reset()
        E.run(f, selfv=shell_obj)
        lists = [x for x in seen["shell"].fields.get(key, ()) if isinstance(x, Obj)]
        new = [o for x in lists for o in H.allvals(x) if isinstance(o, Obj) and o.kind == "inst"]
        if not new:
            rep.undecided("no-sharing", what, "what is pushed is not understood")
            continue
        ok = True
        for o in new:
            for x in H.reach(vobj(o)):
                if x.region != "E":
                    ok = False
                    rep.violate("no-sharing", "%s: %s" % (what, x.kind), "the pushed sudoku shares %s with the current one" % x, prog.loc(f.meta["node"]))
        rep.count("points-to: objects reachable from what is pushed", sum(len(H.reach(vobj(o))) for o in new))
        if ok:
            rep.holds("no-sharing", what, "everything mutable in the pushed sudoku is new")
    cp = E.method("copy")
    E.reset()
    r, _y = E.run(cp, selfv=lambda: E.board("sudoku"))
    outs = [o for o in r if isinstance(o, Obj) and o.kind == "inst"]
    bad = [x for o in outs for x in H.reach(vobj(o)) if x.region != "E"]
    if not outs:
        rep.undecided("no-sharing", "Sudoku.copy", "result not understood")
    elif bad:
        rep.violate("no-sharing", "Sudoku.copy: %s" % bad[0].kind, "a state of the undo history shares %s with the sudoku it was copied from" % bad[0], prog.loc(cp.meta["node"]))
    else:
        rep.holds("no-sharing", "Sudoku.copy", "everything mutable in the copy is new")


def c21(prog):
    rep = Report("C21", prog, RULE, ["copy() gives an independent sudoku (decided by C02)",
                                     "standard library functions behave as modelled in sa/symlib.py"])
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    try:
        check_sharing(rep, prog)
        check_push(I, rep)
        check_pop(I, rep)
        check_others(I, rep)
        check_game(I, rep)
    except Unsupported as e:
        rep.undecided("shell", "Shell", "no transfer function: %s" % e)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
