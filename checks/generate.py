"""C16, C17: generation of sudokus."""
import ast
import os

from .lib import *
from sa.logic import free_vars, mkite
from sa.evalf import latin
from sa.sym import NONE, Board, Coll, Gen, K, assigned_names

GEN = "sudokutools.generate"
RULE16 = ("abstract interpretation of generate() for every symmetry option and all box shapes: one iteration of its loop from an arbitrary state that "
          "satisfies the loop invariant (each field cleared or as in the solution, whole orbits untried); the fields written in it must be the orbit of one "
          "field under the named symmetry of the grid, all cleared or all as before at every uniqueness test and at the end of the iteration")
RULE17 = ("abstract interpretation of generate() and generate_from_template() with the same inductive loop invariant: contents handed out are contents "
          "that is_unique() accepted (or the full solution), agree with the solution, keep min_count fields, match the template; exits and ValueErrors")
ASSUME = ["is_unique() answers for the sudoku it is given and does not change it (C09, C01)",
          "create_solution() gives a filled sudoku without conflicts of the shape it is asked for (C10)",
          "standard library functions behave as modelled in sa/symlib.py"]


def centred(r, c):
    return 2 * r - N + 1, 2 * c - N + 1


def key_none(r, c):
    return r, c


def key_180(r, c):
    u, v = centred(r, c)
    return u * u, u * v, v * v


def key_90(r, c):
    u, v = centred(r, c)
    return u * u + v * v, u * v * (u * u - v * v), u * u * v * v


def key_x(r, c):
    u, v = centred(r, c)
    return u * u, v


def key_y(r, c):
    u, v = centred(r, c)
    return u, v * v


def key_xy(r, c):
    u, v = centred(r, c)
    return u * u, v * v


# symmetry option -> (images of a field of an n x n grid, polynomials that tell the orbits apart)
ORBITS = {
    None: (lambda n, r, c: [(r, c)], key_none),
    "rotate-90": (lambda n, r, c: [(r, c), (n - 1 - c, r), (n - 1 - r, n - 1 - c), (c, n - 1 - r)], key_90),
    "rotate-180": (lambda n, r, c: [(r, c), (n - 1 - r, n - 1 - c)], key_180),
    "mirror-x": (lambda n, r, c: [(r, c), (n - 1 - r, c)], key_x),
    "mirror-y": (lambda n, r, c: [(r, c), (r, n - 1 - c)], key_y),
    "mirror-xy": (lambda n, r, c: [(r, c), (n - 1 - r, c), (r, n - 1 - c), (n - 1 - r, n - 1 - c)], key_xy),
}
FILLED = Var("filled", ZERO, None)
ITER = Var("iterations", ZERO, None)
MIN = Var("min_count", None, None)
TRIES = Var("tries", None, None)


def status(orbit, r, c):
    """0: cleared, 1: tried and kept, 2: not tried yet - the same for all fields of an orbit."""
    return P(Term("status", *orbit[1](r, c)))


def field_vars(name="f"):
    return Var(name + "R", ZERO, N), Var(name + "C", ZERO, N)


class Outcome(object):
    """One path through the body of the loop."""
    def __init__(self, kind, st, start, ints):
        self.kind, self.st, self.start, self.ints = kind, st, start, ints


class Run(object):
    """Interpretation of a generating function with its loop replaced by one iteration from the invariant."""
    def __init__(self, prog, orbit, template=False):
        self.I = I = Interp(prog)
        self.orbit, self.template = orbit, template
        self.bodies, self.loops, self.ints = [], 0, {}
        self.opaque = {}
        self.deadline = None
        I.stubs[(GEN, "create_solution")] = self.create
        I.stubs[("sudokutools.analyze", "is_unique")] = self.unique
        I.stubs[("sudokutools.solve", "dlx")] = self.nodlx
        I.stubs[("sudokutools.solve", "bruteforce")] = self.nodlx
        I.stubs["random.shuffle"] = self.shuffle
        I.stubs["external"] = self.random
        tree = prog.trees.get(GEN)
        if tree is None:
            raise AnalysisBroken("module %s not found" % GEN)
        for n in ast.walk(tree):
            if isinstance(n, ast.While):
                I.stubs[("while", id(n))] = self.loop

    # ------------------------------------------------------------ replaced functions
    def nodlx(self, I, args, kw, st, node):
        raise Unsupported("solver called while generating", node)

    def shuffle(self, I, args, kw, st, node):
        r = I.rec(st, args[0]) if args and isinstance(args[0], Ref) else None
        if not isinstance(r, Coll) or r.kind != "list":
            raise Unsupported("shuffle", node)
        yield st, NONE

    def random(self, I, name, args, kw, st, node):
        if name not in ("random.choice", "random.sample") or kw or not args:
            raise Unsupported("external %s" % name, node)
        if name == "random.sample" and args[1:] != [P(1)] or name == "random.choice" and len(args) != 1:
            raise Unsupported(name, node)
        c = I.coll(args[0], st, node)
        if name == "random.sample" and c.kind in ("set", "frozenset"):
            yield st, Exc("TypeError", (), node)
            return
        for s, b in I.branch(I.truth(c, st, node), st):
            if not b:
                yield s, Exc("IndexError" if name == "random.choice" else "ValueError", (), node)
            else:
                v = I.skolem(c, s, "chosen")
                yield s, v if name == "random.choice" else I.newcoll(s, "list", [("+", (), T, v)])

    def create(self, I, args, kw, st, node):
        size = kw.get("box_size", args[0] if args else Tup([P(3), P(3)]))
        if I.plain(size, st) != Tup([PW, PH]):
            raise Unsupported("solution of another shape: %r" % (size,), node)
        b = I.generic_board(st, "sol%d" % st_count(st, "solution"))
        st.ev += (("solution", b, I.rec(st, b)),)
        yield st, b

    def unique(self, I, args, kw, st, node):
        b = args[0] if args else kw.get("sudoku")
        if not isinstance(b, Ref) or not isinstance(I.rec(st, b), Board):
            raise Unsupported("is_unique of something else", node)
        for res in (T, F):
            s = st.fork()
            s.ev += (("unique", I.rec(s, b), res == T),)
            yield s, res

    # ------------------------------------------------------------ the loop
    def loop(self, I, n, st, fr):
        self.loops += 1
        if self.template is None:          # only whether the loop is reached matters
            st.ev += (("loop",),)
            yield st, "ret", NONE
            return
        if self.loops > 8:
            raise Unsupported("several loops", n)
        env = st.frames[fr.fid]
        names = sorted(x for x in assigned_names(n.body) if x in env)
        ints = {}
        for x in names:
            if not isinstance(env[x], Poly):
                raise Unsupported("%s is carried through the loop" % x, n)
            ints[x] = env[x]
        before = set(st.heap)
        changed = set()
        unknown = {x: Var(x + "~") for x in ints}
        forms = {x: P(unknown[x]) for x in ints}
        while True:          # what does the body change?
            entry, pre = self.havoc(st, fr, n, changed, forms)
            outs = self.body(n, entry, fr)
            more = set(i for o in outs for i in before if o.st.heap.get(i) is not entry.heap.get(i)) - changed
            if not more:
                break
            changed |= more
        self.base_case(st, changed, n)
        # how do the numbers carried through the loop move?
        for x, v0 in ints.items():
            forms[x] = self.guess(x, v0, [o for o in outs if o.kind == "back"], forms[x], entry)
        entry, pre = self.havoc(st, fr, n, changed, forms)
        outs = self.body(n, entry, fr)
        if self.loops > 8 or self.bodies:
            raise Unsupported("several loops", n)
        self.forms, self.changed = forms, changed
        self.names = {unknown[x]: x for x in forms}
        self.opaque = {unknown[x]: ints[x] for x in forms if forms[x] == P(unknown[x])}
        self.bodies.append((n, entry, outs))
        for o in outs:
            if o.kind == "exit":
                yield o.st, "n", None
            elif o.kind == "out":
                yield o.st, o.out[0], o.out[1]
            else:                # the loop may end after this iteration: already covered by the induction, used for counter-models
                s0 = o.st.fork()
                s0.ev += (("after",),)
                for s, f in I.cond(n.test, s0, fr):
                    if isinstance(f, Exc):
                        continue
                    for s2, b in I.branch(f, s):
                        if not b:
                            yield from I.block(n.orelse, s2, fr)

    def body(self, n, entry, fr):
        outs = []
        I = self.I
        for s, f in I.cond(n.test, entry.fork(), fr):
            if isinstance(f, Exc):
                outs.append(self.outcome("out", s, entry, ("raise", f)))
                continue
            for s2, b in I.branch(f, s):
                if not b:
                    outs += [self.outcome("exit" if k == "n" else "out", s3, entry, (k, v)) for s3, k, v in I.block(n.orelse, s2, fr)]
                    continue
                for s3, k, v in I.block(n.body, s2, fr):
                    kind = {"n": "back", "cont": "back", "brk": "exit"}.get(k, "out")
                    outs.append(self.outcome(kind, s3, entry, (k, v)))
        for o in outs:
            o.env = dict(o.st.frames[fr.fid])
        return [o for o in outs if o.st.feasible()]

    def outcome(self, kind, st, entry, out):
        o = Outcome(kind, st, entry, None)
        o.out = out
        o.ev = st.ev[len(entry.ev):]
        return o

    def havoc(self, st, fr, n, changed, forms):
        I = self.I
        s = st.fork()
        for x, v in forms.items():
            s.set(fr.fid, x, v)
        pre = {}
        boards = []
        for i in sorted(changed):
            r = s.heap[i]
            if isinstance(r, Board):
                rr, cc = field_vars("w")
                log = r.log + (("n", (rr, cc), mkeq(status(self.orbit, P(rr), P(cc)), ZERO), Tup([P(rr), P(cc)]), ZERO),)
                s.heap[i] = Board(r.base, r.attrs, log, r.new, r.cls)
                boards.append(i)
            elif isinstance(r, Coll) and r.kind in ("list", "set"):
                rr, cc = field_vars("u")
                s.heap[i] = Coll(r.kind, (("+", (rr, cc), mkeq(status(self.orbit, P(rr), P(cc)) - 2, ZERO), Tup([P(rr), P(cc)])),))
            else:
                raise Unsupported("object carried through the loop", n)
        if len(boards) > 1:
            raise Unsupported("several sudokus carried through the loop", n)
        if boards:
            s.ev += (("known", s.heap[boards[0]]),)
            s.add(fnot(mklt(P(FILLED) - P(MIN))))
        if self.template:
            s.add(f_or(mklt(P(TRIES)), fnot(mklt(P(TRIES) - P(ITER)))))
        self.boards = boards
        return s, pre

    def base_case(self, st, changed, n):
        """The invariant holds when the loop is reached."""
        I = self.I
        sols = [e for e in st.ev if e[0] == "solution"]
        r, c = field_vars("t")
        f = Tup([P(r), P(c)])
        for i in sorted(changed):
            rec = st.heap[i]
            if isinstance(rec, Board):
                if len(sols) != 1:
                    raise Unsupported("sudoku that is not made from a solution", n)
                s = st.fork()
                a, b = number(I, rec, f, s), number(I, sols[0][2], f, s)
                if I.decide(mkeq(a, b), s) is not True:
                    raise Unsupported("the sudoku is not the solution when the loop starts", n)
                if I.decide(mklt(N * N - P(MIN)), s) is not False:
                    raise Unsupported("min_count may be larger than the number of fields when the loop starts", n)
            else:
                if mult(rec.val(), f, Decider(pc=st.pc)) != 1:
                    raise Unsupported("the fields to try are not all fields, each once", n)

    def guess(self, x, v0, backs, cur, entry):
        ds = []
        for o in backs:
            v = o.env.get(x)
            if not isinstance(v, Poly):
                return cur
            ds.append((v - cur, self.cleared(o)))
        for form, delta in ((v0 + P(FILLED) - N * N, lambda k: -P(k)), (v0 + N * N - P(FILLED), lambda k: P(k))):
            if ds and all(k is not None and d == delta(k) for d, k in ds) and any(k for _d, k in ds):
                return form
        if ds and all(d == ds[0][0] and d.isconst() for d, _k in ds):
            return v0 + ds[0][0] * P(ITER)
        return cur

    def writes(self, o, rec=None):
        """Fields written since the loop's start in the sudoku it works on: [(row, col)], or None."""
        i = self.boards[0]
        rec = o.st.heap[i] if rec is None else rec
        pre = o.start.heap[i].log
        if rec.base != o.start.heap[i].base or rec.log[:len(pre)] != pre:
            return None
        out = []
        for w in rec.log[len(pre):]:
            if w[0] != "n":
                if w[0] == "carried":
                    return None
                continue
            if w[1] or w[2] != T:
                return None
            out.append(w[3])
        return out

    def cleared(self, o):
        """How many filled fields did the iteration clear?  A number or None."""
        if not self.boards:
            return 0
        ws = self.writes(o)
        if ws is None:
            return None
        I, st = self.I, o.st
        distinct = []
        for f in ws:
            rs = [I.decide(mkeq(f, g), st) for g in distinct]
            if True in rs:
                continue
            if None in rs:
                return None
            distinct.append(f)
        k = 0
        for f in distinct:
            new, old = number(I, st.heap[self.boards[0]], f, st), number(I, o.start.heap[self.boards[0]], f, st)
            if new == old:
                continue
            if new == ZERO and I.decide(mkeq(status(self.orbit, *f.items), P(0)), st) is False:
                k += 1
            elif I.decide(mkeq(new, old), st) is True:
                continue
            else:
                return None
        return k


def st_count(st, tag):
    return sum(1 for e in st.ev if e[0] == tag)


def number(I, rec, f, st):
    s = st.fork()
    b = I.new(s, rec)
    return I.bread(b, "n", f, s)


def sure_lengths(I, st):
    """The path with the lengths of collections of fields whose equality the path decides."""
    mp = {}
    for g in st.pc:
        for a in atoms_of(g):
            if isinstance(a, Term) and a.op == "len" and isinstance(a.args[0], CollV) and a.args[0].kind in ("set", "frozenset"):
                n = []
                for o in a.args[0].ops:
                    if o[0] != "+" or o[1] or o[2] != T:
                        n = None
                        break
                    rs = [I.decide(mkeq(o[3], y), st) for y in n]
                    if True in rs:
                        continue
                    if None in rs:
                        n = None
                        break
                    n.append(o[3])
                if n is not None:
                    mp[a] = P(len(n))
    if not mp:
        return st
    s = st.fork()
    s.pc = tuple(sub_atoms(g, mp) for g in s.pc)
    return s


def atoms_of(g):
    if g[0] in ("lt", "eq"):
        return g[1].atoms()
    if g[0] == "not":
        return atoms_of(g[1])
    if g[0] in ("and", "or"):
        return [a for h in g[1] for a in atoms_of(h)]
    return []


def sub_atoms(g, mp):
    if g[0] == "lt":
        return mklt(g[1].subst(mp))
    if g[0] == "eq":
        return mkeq(g[1].subst(mp), ZERO)
    if g[0] == "not":
        return fnot(sub_atoms(g[1], mp))
    if g[0] in ("and", "or"):
        return (f_and if g[0] == "and" else f_or)(*[sub_atoms(h, mp) for h in g[1]])
    return g


# ---------------------------------------------------------------- counter-models
def worlds_of(run, pc, shapes_=((1, 2), (2, 2), (3, 1)), template=False):
    """Small sudokus in which the path can be taken: (environment, side length, template)."""
    import time
    if run.deadline is None:
        run.deadline = time.time() + 60
        run.worlds = 0
    for w, h in shapes_:
        for e, n, tpl in (template_states(run, w, h) if template else generate_states(run, w, h)):
            for e2 in worlds(e, pc):
                yield e2, n, tpl
                run.worlds += 1
                if run.worlds > 4000 or time.time() > run.deadline:
                    return
            if time.time() > run.deadline:
                return


def template_states(run, w, h):
    sol = latin(w, h)
    for tpl in ({}, {(0, 0): 1}, {f: 1 for f in sol if (f[0] + f[1]) % 2}, dict(sol)):
        for tries, it in ((-1, 0), (-1, 3), (0, 0), (1, 0), (1, 1), (3, 1), (3, 2), (3, 3)):
            if it and run.opaque:
                continue
            e = state_env(w, h, sol, {TRIES: tries, ITER: it, MIN: 0, FILLED: len(sol)}, lambda *a: 2, tpl)
            for x, v0 in run.opaque.items():
                e.v[x] = e.val(v0)
            yield e, w * h, tpl


def state_env(w, h, sol, vals, stt, tpl=None):
    def num(b, r, c):
        if b == "tpl" and tpl is not None:
            return tpl.get((r, c), 0)
        if isinstance(b, str) and b.startswith("sol"):
            return sol[r, c]
        raise NoValue("num")
    return Env(w, h, vals, {"num": num, "status": stt})


def generate_states(run, w, h):
    """States in which the loop can be: by the invariant, or - when numbers in it are not understood - those that the first iterations lead to."""
    import random
    n = w * h
    sol = latin(w, h)
    e0 = Env(w, h)
    keys = {f: tuple(e0.val(x) for x in map(P, run.orbit[1](P(f[0]), P(f[1])))) for f in sol}
    groups = sorted(set(keys.values()))
    rnd = random.Random(n)
    choices = [{g: 2 for g in groups}]
    if not run.opaque:
        choices += [{g: 2 if g == k else 1 for g in groups} for k in groups[:4]]
        choices += [{g: rnd.choice((0, 1, 2)) for g in groups} for _ in range(6)]
    first = []
    for stat in choices:
        filled = sum(1 for f in sol if stat[keys[f]] != 0)
        for least in sorted(set([0, 1, filled - 4, filled - 3, filled - 2, filled - 1, filled])):
            if least >= 0:
                e = stat_env(w, h, sol, keys, stat, least)
                for x, v0 in run.opaque.items():
                    e.v[x] = e.val(v0)
                first.append((stat, e))
                yield e, n, {}
    if not run.opaque or not run.bodies or len(run.boards) != 1:
        return
    todo = first
    for _depth in range(3):
        more = []
        for stat, e in todo:
            seen = set()
            for o in run.bodies[0][2]:
                if o.kind != "back":
                    continue
                for e2 in worlds(e, o.st.pc):
                    nxt = next_state(run, w, h, sol, keys, stat, e2, o)
                    if nxt is None:
                        continue
                    k = tuple(sorted(nxt[0].items())), tuple(sorted((repr(x), nxt[1].v[x]) for x in run.opaque))
                    if k not in seen and len(seen) < 6:
                        seen.add(k)
                        more.append(nxt)
                        yield nxt[1], n, {}
        rnd.shuffle(more)
        todo = more[:12]


def stat_env(w, h, sol, keys, stat, least):
    known = set(keys.values())

    def stt(*args):
        if args not in known:
            raise NoValue("status")
        return stat[args]
    filled = sum(1 for f in sol if stat[keys[f]] != 0)
    return state_env(w, h, sol, {FILLED: filled, MIN: least, TRIES: 0, ITER: 0}, stt)


def next_state(run, w, h, sol, keys, stat, e, o):
    """The state after an iteration, if it is one that statuses can describe."""
    g = grid_of(run.I, e, w * h, o.st.heap[run.boards[0]], o.st)
    left = None
    for i in run.changed:
        if i != run.boards[0]:
            left = e.multi(o.st.heap[i].val())
    if left is None:
        return None
    new = {}
    for f in sol:
        if g.get(f, 0) not in (0, sol[f]):
            return None
        x = 2 if left[f] else 1 if g.get(f) else 0
        if x == 2 and not g.get(f):
            return None
        if new.setdefault(keys[f], x) != x:
            return None
    e2 = stat_env(w, h, sol, keys, new, e.v[MIN])
    if e2.v[FILLED] < e.v[MIN]:
        return None
    for x in run.opaque:
        name = run.names[x]
        e2.v[x] = e.val(o.env[name])
    return new, e2


def grid_of(I, e, n, rec, st):
    key = ("grid", id(rec), id(st), n)
    if key not in I.stubs:           # the records are kept alive by the entry
        I.stubs[key] = (rec, st, [((r, c), number(I, rec, Tup([P(r), P(c)]), st)) for r in range(n) for c in range(n)])
    out = {}
    for f, x in I.stubs[key][2]:
        v = e.val(x)
        if v:
            out[f] = v
    return out


def same_contents(I, a, b, st):
    """True | None: do two sudokus hold the same numbers?"""
    if a.base == b.base and a.log == b.log:
        return True
    pts, facts = [], []
    r, c = field_vars("t")
    f = Tup([P(r), P(c)])
    k = 0
    while a.base == b.base and k < min(len(a.log), len(b.log)) and a.log[k] == b.log[k]:
        k += 1
    for w in a.log[k:] + b.log[k:]:
        if w[0] == "n" and not w[1] and w[2] == T and w[3] not in pts:
            pts.append(w[3])
    for g in pts:
        if Decider(pc=st.pc).decide(mkeq(number(I, a, g, st), number(I, b, g, st))) is not True:
            return None
        facts.append(fnot(mkeq(f, g)))
    s = st.fork(*facts)
    return Decider(pc=s.pc).decide(mkeq(number(I, a, f, s), number(I, b, f, s))) or None


# ---------------------------------------------------------------- C16
def analyse(prog, name, key, pc=()):
    run = Run(prog, ORBITS[key])
    I = run.I
    st = State()
    for f in pc:
        st.add(f)
    outs = [(s, v) for s, v in I.call(public(I, GEN, name), [P(MIN), NONE if key is None else K(key), Tup([PW, PH])], {}, st) if s.feasible()]
    return run, outs


def pairs(f):
    return f.items[0], f.items[1]


def orbit_proved(run, o):
    I, st = run.I, o.st
    ws = run.writes(o)
    if ws is None:
        return None, "the fields written in an iteration are not known"
    recs = [e[1] for e in o.ev if e[0] == "unique"]
    i = run.boards[0]
    for r in recs:
        if run.writes(o, r) is None:
            return None, "another sudoku is tested"
    if not ws:
        return True, "nothing changes"
    D = Decider(pc=st.pc)
    images = [Tup([P(r), P(c)]) for r, c in run.orbit[0](N, *pairs(ws[0]))]
    for g in images:
        if D.decide(f_or(*[mkeq(g, x) for x in ws])) is not True:
            return None, "%r is not written together with %r" % (g, ws[0])
    for x in ws:
        if D.decide(f_or(*[mkeq(g, x) for g in images])) is not True:
            return None, "%r is written together with %r" % (x, ws[0])
    for rec in recs + [st.heap[i]]:
        zero = [D.decide(mkeq(number(I, rec, g, st), ZERO)) is True for g in images]
        kept = [D.decide(mkeq(number(I, rec, g, st), number(I, o.start.heap[i], g, st))) is True for g in images]
        if not all(zero) and not all(kept):
            return None, "the fields %r are not all cleared and not all as before" % (images,)
    return True, "%r" % (images,)


def orbit_refuted(run, o):
    I = run.I
    i = run.boards[0]
    recs = [e[1] for e in o.ev if e[0] == "unique"] + [o.st.heap[i]]
    try:
        for e, n, _t in worlds_of(run, o.st.pc):
            cur = grid_of(I, e, n, o.start.heap[i], o.st)
            for rec in recs:
                g = grid_of(I, e, n, rec, o.st)
                diff = sorted(f for f in set(g) | set(cur) if g.get(f) != cur.get(f))
                if diff and sorted(set(run.orbit[0](n, *diff[0]))) != diff:
                    return "%dx%d boxes: the fields %s change together; the orbit of %s is %s" % (
                        e.v[W], e.v[H], diff, diff[0], sorted(set(run.orbit[0](n, *diff[0]))))
                cur = g
    except NoValue as e:
        if os.environ.get("VERIF_DEBUG"):
            print("no value:", e)
    return None


def c16(prog):
    rep = Report("C16", prog, RULE16, ASSUME)
    I = Interp(prog)
    I.setup_boards_or(rep)
    public(I, GEN, "generate")
    if I.templates:
        for key in ORBITS:
            construct = "symmetry %s" % key
            try:
                run, outs = guarded(lambda: analyse(prog, "generate", key))
                check_orbits(rep, run, outs, construct)
                rep.count("functions interpreted", len(set(run.I.calls)))
            except Unsupported as e:
                rep.undecided("orbit", construct, "no transfer function: %s" % e)
    return rep


def guarded(f):
    try:
        return f()
    except (Unsupported, AnalysisBroken):
        raise
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        raise Unsupported("%s in the interpreter: %s" % (type(e).__name__, e))


def check_orbits(rep, run, outs, construct):
    loc = where(run.I, run.I.glob(GEN, "generate"))
    good = [v for s, v in outs if not isinstance(v, Exc)]
    if outs and not good:
        rep.violate("option", construct, "generate() never returns with this option", loc)
        return
    if len(run.bodies) != 1 or len(run.boards) != 1:
        rep.undecided("orbit", construct, "no single loop that clears fields")
        return
    unknown = None
    for o in run.bodies[0][2]:
        rep.count("paths through the loop", 1)
        if o.kind == "out" and o.out[0] == "raise":
            unknown = "%s may be raised" % o.out[1].name
            continue
        ok, why = orbit_proved(run, o)
        if ok is not True:
            w = guarded(lambda: orbit_refuted(run, o))
            if w is not None:
                rep.violate("orbit", construct, w, loc)
                return
            unknown = why
    if unknown:
        rep.undecided("orbit", construct, unknown)
    else:
        rep.holds("orbit", construct, "every iteration changes no field or exactly the orbit of one, all cleared or all as before")


# ---------------------------------------------------------------- C17
def known_contents(s):
    """Contents found to have exactly one solution on the path: [(record, what)]."""
    out = []
    for e in s.ev:
        if e[0] == "solution":
            out.append((e[2], "solution"))
        elif e[0] == "known":
            out.append((e[1], "loop"))
        elif e[0] == "unique" and e[2]:
            out.append((e[1], "tested"))
    return out


def agrees(I, rec, s):
    """Does every filled field hold the number of the solution?"""
    sols = [e[2] for e in s.ev if e[0] == "solution"]
    if not sols:
        return None
    r, c = field_vars("t")
    f = Tup([P(r), P(c)])
    x, y = number(I, rec, f, s), number(I, sols[-1], f, s)
    for facts, v in cases(x, s.pc):
        if v != ZERO and Decider(pc=tuple(s.pc) + facts).decide(mkeq(v, y)) is not True:
            return None
    return True


def cases(x, pc, facts=()):
    """Values of an if-then-else term: [(facts, value)]."""
    a = x.single() if isinstance(x, Poly) else None
    if isinstance(a, Term) and a.op == "ite":
        out = []
        for c, v in ((a.args[0], a.args[1]), (fnot(a.args[0]), a.args[2])):
            if Decider(pc=tuple(pc) + facts).decide(c) is not False:
                out += cases(P(v), pc, facts + (c,))
        return out
    return [(facts, x)]


def enough(run, o, k):
    """Are at least min_count fields filled after an iteration that cleared k?"""
    if k is None:
        return None
    s = sure_lengths(run.I, o.st)
    r = Decider(pc=s.pc).decide(mklt(P(FILLED) - k - P(MIN)))
    return None if r is None else not r


def step_proved(run, o):
    """The iteration keeps the invariant of generate()."""
    I, st = run.I, o.st
    i = run.boards[0]
    rec = st.heap[i]
    k = run.cleared(o)
    if agrees(I, rec, st) is not True:
        return "the filled fields agree with the solution: not shown"
    known = [(r, w) for r, w in known_contents(st) if w != "solution"]
    if not any(same_contents(I, rec, r, st) is True for r, _w in known):
        return "the contents after an iteration are not contents found to be unique"
    if enough(run, o, k) is not True:
        return "at least min_count filled fields after an iteration: not shown"
    mp = {FILLED: P(FILLED) - k}
    D = Decider(pc=st.pc)
    for x, form in run.forms.items():
        if D.decide(mkeq(o.env[x], subst(form, mp))) is not True:
            return "%s is not understood" % x
    return tried_proved(run, o)


def tried_proved(run, o):
    """Exactly the orbit that was cleared or kept leaves the fields to try."""
    I, st = run.I, o.st
    for i in run.changed:
        if isinstance(st.heap[i], Board):
            continue
        c, pre = st.heap[i], o.start.heap[i]
        if c.ops[:len(pre.ops)] != pre.ops or any(x[0] not in ("-", "-1") or x[1] or x[2] != T for x in c.ops[len(pre.ops):]):
            return "the fields left to try are not understood"
        gone = [x[3] for x in c.ops[len(pre.ops):]]
        if not gone:
            return "no field leaves the fields to try"
        D = Decider(pc=st.pc)
        images = [Tup([P(r), P(c2)]) for r, c2 in run.orbit[0](N, *pairs(gone[0]))]
        for a, b in ((images, gone), (gone, images), (run.writes(o) or (), gone)):
            if any(D.decide(f_or(*[mkeq(g, x) for x in b])) is not True for g in a):
                return "the fields that leave the fields to try are not those of an orbit"
    return None


def show_grid(g):
    return "{%s}" % ", ".join("%s: %s" % x for x in sorted(g.items()))


def result_refuted(run, s, v, template=False):
    """A small model in which what is handed out is wrong."""
    I = run.I
    rec = s.heap[v.id]
    base = [e[2] for e in s.ev if e[0] == "solution"]
    if not base:
        return "a sudoku that is not made from a solution"
    try:
        for e, n, tpl in worlds_of(run, s.pc, template=template, shapes_=((1, 2), (2, 2))):
            g = grid_of(I, e, n, rec, s)
            sol = grid_of(I, e, n, base[-1], s)
            where_ = "%dx%d boxes, min_count %s" % (e.v[W], e.v[H], e.v[MIN])
            if any(g[f] != sol.get(f) for f in g):
                return "%s: returns %s, which does not agree with its solution %s" % (where_, show_grid(g), show_grid(sol))
            if not any(g == grid_of(I, e, n, r, s) for r, _w in known_contents(s)):
                return "%s: returns %s, which was not found to be unique" % (where_, show_grid(g))
            if template:
                if set(g) != set(f for f in tpl if tpl[f]):
                    return "%dx%d boxes: fills %s for a template with %s" % (e.v[W], e.v[H], sorted(g), sorted(tpl))
            elif len(g) < e.v[MIN]:
                return "%s: returns only %d filled fields: %s" % (where_, len(g), show_grid(g))
    except NoValue as e:
        if os.environ.get("VERIF_DEBUG"):
            print("no value:", e)
    return None


def check_generate(rep, key):
    construct = "generate(symmetry=%s)" % key
    prog = rep.prog
    loc = where(rep.I, rep.I.glob(GEN, "generate"))
    run, outs = guarded(lambda: analyse(prog, "generate", key))
    I = run.I
    rep.count("paths through generate()", len(outs))
    rep.count("functions interpreted", len(set(I.calls)))
    unknown = None
    for s, v in outs:
        if isinstance(v, Exc):
            if v.name != "ValueError" or any(e[0] == "solution" for e in s.ev):
                unknown = "%s may be raised" % v.name
            continue
        if not isinstance(v, Ref) or not isinstance(s.heap.get(v.id), Board):
            rep.violate("result", construct, "returns %r instead of a sudoku" % (v,), loc)
            return
        after = any(e[0] == "after" for e in s.ev)
        why = None
        rec = s.heap[v.id]
        if not after:
            if agrees(I, rec, s) is not True:
                why = "agreement with the solution not shown"
            else:
                hit = [w for r, w in known_contents(s) if same_contents(I, rec, r, s) is True]
                if not hit:
                    why = "not shown to be contents that were found unique"
                elif "loop" not in hit and not ("solution" in hit and Decider(pc=s.pc).decide(mklt(N * N - P(MIN))) is False):
                    why = "number of filled fields not shown"
        if why is not None or after:
            w = guarded(lambda: result_refuted(run, s, v))
            if w is not None:
                rep.violate("result", construct, w, loc)
                return
            unknown = unknown or why
    if len(run.bodies) != 1 or len(run.boards) != 1:
        unknown = unknown or "no single loop that clears fields"
    else:
        for o in run.bodies[0][2]:
            rep.count("paths through the loop", 1)
            if o.kind == "back":
                unknown = unknown or guarded(lambda: step_proved(run, o))
    if unknown:
        rep.undecided("result", construct, unknown)
    else:
        rep.holds("result", construct, "by induction over the loop")


def check_rejects(rep):
    """ValueError for a min_count above the number of fields and for an unknown symmetry."""
    loc = where(rep.I, rep.I.glob(GEN, "generate"))
    many = [fnot(mklt(P(MIN) - N * N - 1))]
    for key in ORBITS:
        rejects(rep, "min_count", "min_count above the number of fields, symmetry %s" % key, key, many, loc)
    few = [mklt(P(MIN) - N * N - 1)]
    for key in ("sideways", "mirror", "", "rotate-270"):
        rejects(rep, "symmetry", "symmetry %r" % key, key, few, loc)
    other = Term("symmetry")
    rejects(rep, "symmetry", "any other symmetry", other, few + [fnot(mkeq(other, NONE if k is None else K(k))) for k in ORBITS], loc)


def rejects(rep, rule, construct, key, pc, loc):
    run = Run(rep.prog, ORBITS[None], None)
    I = run.I
    st = State()
    for f in pc:
        st.add(f)
    try:
        outs = guarded(lambda: [(s, v) for s, v in I.call(I.glob(GEN, "generate"), [P(MIN), NONE if key is None else key if isinstance(key, Term) else K(key),
                                                                                Tup([PW, PH])], {}, st) if s.feasible()])
    except Unsupported as e:
        rep.undecided(rule, construct, "no transfer function: %s" % e)
        return
    bad = [v for s, v in outs if not (isinstance(v, Exc) and v.name == "ValueError")]
    if not bad:
        rep.check(True if outs else None, rule, construct, "ValueError", "no outcome")
        return
    sure = [s for s, v in outs if not (isinstance(v, Exc) and v.name == "ValueError") and reached(run, s)]
    if sure:
        rep.violate(rule, construct, "gives %r instead of ValueError" % (bad[0],), loc)
    else:
        rep.undecided(rule, construct, "gives %r instead of ValueError?" % (bad[0],))


def reached(run, s):
    """Is the path possible for a small sudoku?  (min_count above the number of fields is allowed here)"""
    for w, h in ((1, 2), (2, 1), (2, 2)):
        n = w * h
        for least in (0, 1, n * n, n * n + 1, n * n + 7):
            e = Env(w, h, {MIN: least, FILLED: n * n}, {"status": lambda *a: 2, "num": lambda b, r, c: latin(w, h)[r, c], "symmetry": lambda: "diagonal"})
            try:
                if any(True for _ in worlds(e, s.pc)):
                    return True
            except NoValue:
                continue
    return False


def check_template(rep):
    construct = "generate_from_template"
    f = public(rep.I, GEN, "generate_from_template")
    loc = where(rep.I, f)
    run = Run(rep.prog, ORBITS[None], template=True)
    I = run.I
    st = State()
    tpl = I.generic_board(st, "tpl")
    outs = guarded(lambda: [(s, v) for s, v in I.call(I.glob(GEN, "generate_from_template"), [tpl, P(TRIES)], {}, st) if s.feasible()])
    rep.count("paths through generate_from_template()", len(outs))
    rep.count("functions interpreted", len(set(I.calls)))
    unknown = None
    r, c = field_vars("t")
    t = Tup([P(r), P(c)])
    n_tests = lambda ev: sum(1 for e in ev if e[0] == "unique")
    for s, v in outs:
        after = any(e[0] == "after" for e in s.ev)
        if isinstance(v, Exc) and v.name == "RuntimeError":
            made = P(ITER) + n_tests(s.ev)
            pc = s.pc
            ok = Decider(pc=pc).decide(f_and(fnot(mklt(P(TRIES))), mklt(P(TRIES) - made - 1))) is True and Decider(pc=pc).decide(mklt(made - P(TRIES))) is False
            if ok and not after:
                continue
            w = guarded(lambda: tries_refuted(run, s, made))
            if w is not None:
                rep.violate("tries", construct, w, loc)
                return
            if not after:
                unknown = unknown or "RuntimeError after exactly the given number of tries: not shown"
            continue
        if isinstance(v, Exc):
            unknown = unknown or "%s may be raised" % v.name
            continue
        if not isinstance(v, Ref) or not isinstance(s.heap.get(v.id), Board):
            if guarded(lambda: possible(run, s)):
                rep.violate("result", construct, "returns %r instead of a sudoku" % (v,), loc)
                return
            unknown = unknown or "returns %r" % (v,)
            continue
        rec = s.heap[v.id]
        why = None
        if agrees(I, rec, s) is not True:
            why = "agreement with the solution not shown"
        elif not any(w == "tested" and same_contents(I, rec, k, s) is True for k, w in known_contents(s)):
            why = "not shown to be contents that were found unique"
        else:
            x, y = number(I, rec, t, s), number(I, s.heap[tpl.id], t, s)
            for facts in ((mkeq(y, ZERO),), (fnot(mkeq(y, ZERO)),)):
                sols = [e[2] for e in s.ev if e[0] == "solution"]
                want = ZERO if facts[0][0] == "eq" else number(I, sols[-1], t, s)
                if Decider(pc=tuple(s.pc) + facts).decide(mkeq(x, want)) is not True:
                    why = "filled exactly where the template is: not shown"
        if why is not None:
            w = guarded(lambda: result_refuted(run, s, v, True))
            if w is not None:
                rep.violate("result", construct, w, loc)
                return
            unknown = unknown or why
    if len(run.bodies) != 1:
        unknown = unknown or "no single loop of tries"
    else:
        for o in run.bodies[0][2]:
            if o.kind != "back":
                continue
            if n_tests(o.ev) != 1 or [e for e in o.ev if e[0] == "unique" and e[2]]:
                unknown = unknown or "an iteration is not one failed try"
            D = Decider(pc=o.st.pc)
            if D.decide(f_or(mklt(P(TRIES)), mklt(P(ITER) - P(TRIES)))) is not True:
                unknown = unknown or "more tries than asked for: not excluded"
            for x, form in run.forms.items():
                if D.decide(mkeq(o.env[x], subst(form, {ITER: P(ITER) + 1}))) is not True:
                    unknown = unknown or "%s is not understood" % x
    if unknown:
        rep.undecided("result", construct, unknown)
    else:
        rep.holds("result", construct, "by induction over the tries")


def possible(run, s):
    try:
        for e in worlds_of(run, s.pc, template=True):
            return True
    except NoValue as e:
        if os.environ.get("VERIF_DEBUG"):
            print("no value:", e)
    return False


def tries_refuted(run, s, made):
    try:
        for e, n, tpl in worlds_of(run, s.pc, template=True, shapes_=((1, 2),)):
            t, k = e.v[TRIES], e.val(made)
            if t < 0 or t != k:
                return "RuntimeError after %d tries when %d are given" % (k, t)
    except NoValue as e:
        if os.environ.get("VERIF_DEBUG"):
            print("no value:", e)
    return None


def c17(prog):
    rep = Report("C17", prog, RULE17, ASSUME)
    rep.I = I = Interp(prog)
    rep.prog = prog
    I.setup_boards_or(rep)
    public(I, GEN, "generate")
    public(I, GEN, "generate_from_template")
    if I.templates:
        for key in ORBITS:
            try:
                check_generate(rep, key)
            except Unsupported as e:
                rep.undecided("result", "generate(symmetry=%s)" % key, "no transfer function: %s" % e)
        check_rejects(rep)
        try:
            check_template(rep)
        except Unsupported as e:
            rep.undecided("result", "generate_from_template", "no transfer function: %s" % e)
    return rep
