"""C14: step-by-step solving makes progress with every step and stops."""
import ast
import random
import re
import time

from .lib import *
from .ratings import step_classes
from .patterns import CHANGES, SECONDS, SOLVERS, Proof, Slow, boards, bound_vars, counter, digitised, domains, fam, found_on, in_parallel, prepared, steps_of
from sa.evalf import latin
from sa.logic import conj, mentions, nonempty, vars_of
from sa.sym import Board, ObjV, is_pick

RULE = ("abstract interpretation of find() and apply() of every technique on a generic sudoku: every family of steps found is shown to remove at least one present "
        "candidate and to do nothing else (eliminations), or to fill a field that is empty (single fields); the calculation of candidates is shown to offer one step "
        "for each field without candidates; solve() is interpreted with find() replaced by an arbitrary number of steps for each technique: all rounds of its loop are "
        "followed until no new state of its variables arises, every round that is followed by another one applies at least one step, no calculation of candidates takes "
        "place inside the loop, and it is only left when every technique offered nothing")
ASSUME = ["standard library functions behave as modelled in sa/symlib.py",
          "a step is found and applied on the same state of the sudoku",
          "the callable given to solve() for reporting does not change the sudoku",
          "the candidates of a field are numbers of the sudoku",
          "the solutions of dlx() agree with the filled fields and have no empty ones (C10)"]
SINGLES = ("NakedSingle", "HiddenSingle", "Bruteforce")
FIRST = "CalculateCandidates"


# ---------------------------------------------------------------- every step makes progress
def removes(p, facts, changes, depth=3):
    """Is it certain that applying the step removes a candidate that is present?"""
    work, facts = list(facts), []
    while work:
        f = work.pop(0)
        if f[0] == "and":
            work = list(f[1]) + work
        elif f[0] == "ex" and f[2][0] != "or":
            b, c = refresh(f[1], f[2])
            work = [c] + list(domains(b)) + work
        elif f[0] == "ex":
            work = [f_or(*[mkex(*refresh(f[1], g)) for g in f[2][1]])] + work
        elif f != T and f not in facts:
            facts.append(f)
    facts = tuple(facts)
    known = [f for f in facts if f[0] == "in" and isinstance(f[2], Term) and f[2].op == "cand" and f[2].args[0] == "s"]
    D = Decider(pc=facts)
    for bs, cond, ch in changes:
        for b, c, e in fam(ch[4]):
            bb, cc, row, col, x = refresh(tuple(bs) + tuple(b), f_and(cond, c, *domains(bs), *domains(b)), ch[2], ch[3], e)
            bb, cc, row, col, x = plain(bb, cc, row, col, x)
            for g in known:
                eqs = f_and(*[h for h in conj(cc) if h[0] == "eq"], mkeq(row, g[2].args[1]), mkeq(col, g[2].args[2]), mkeq(x, g[1]))
                for mp, r, left in (D.solve(bb, eqs) if bb else [({}, eqs, ())]) or ():
                    if not left and sure(p, facts, f_and(r, subst(cc, mp)), known):
                        return True
    if depth:
        for i, f in enumerate(facts):
            if f[0] == "or" and len(f[1]) <= 6 and any(h[0] in ("ex", "in") for g in f[1] for h in conj(g)):
                return all(p.decide(facts, g) is False or removes(p, facts[:i] + facts[i + 1:] + (g,), changes, depth - 1) for g in f[1])
    return False


def counted(a):
    """Numbers of elements, what was seen before and what was picked have no part in these proofs."""
    return isinstance(a, Term) and a.op in ("len", "seen", "picked")


def no_elements(facts):
    """Do the facts say that a set is empty and has elements?"""
    for f in facts:
        if f[0] == "not" and f[1][0] == "ex" and len(f[1][1]) == 1 and f[1][2] == T and f[1][1][0].dom is not None and f[1][1][0].dom[0] == "elem":
            c = f[1][1][0].dom[1]
            for g in facts:
                if g[0] in ("eq", "lt") and any(isinstance(a, Term) and a.op == "len" and a.args[0] == c for k in g[1].m for a in k):
                    n = next(a for k in g[1].m for a in k if isinstance(a, Term) and a.op == "len" and a.args[0] == c)
                    if Decider().decide((g[0], subst(g[1], {n: ZERO}))) is False or (g[0], subst(g[1], {n: ZERO})) in (("eq", P(-1)), ("eq", P(1))):
                        return True
    return False


def by_digits(facts, changes):
    vals = (facts, tuple(changes))
    vs = {x if x.parent is None else x.parent[0] for x in vars_of(vals)} - bound_vars(vals, set())
    return digitised(vs, False, *vals)[1]


def plain(bs, *vals):
    """Binders over the elements of sets as variables without bounds."""
    mp = {b: P(Var(b.name)) for b in bs if b.dom is not None}
    return (tuple(mp[b].single() if b in mp else b for b in bs),) + tuple(subst(v, mp) for v in vals)


def sure(p, facts, goal, known):
    """p.holds(), with the known candidates tried for what is said to exist."""
    D = Decider(pc=facts)
    for g in conj(goal):
        alts = list(g[1]) if g[0] == "or" else [g]
        if any(all(D.decide(h) is True for h in conj(a)) for a in alts):
            continue
        for a in alts:
            if a[0] == "ex" and any(witness(p, facts, a, k, known) for k in known):
                break
        else:
            if not p.holds(facts, g):
                return False
    return True


def witness(p, facts, g, k, known):
    bs, c = refresh(g[1], g[2])
    c = f_and(c, *domains(bs))
    bs, c = plain(bs, c)
    for h in conj(c):
        if h[0] == "in" and isinstance(h[2], Term) and h[2].op == "cand" and h[2].args[0] == "s":
            eqs = f_and(mkeq(h[2].args[1], k[2].args[1]), mkeq(h[2].args[2], k[2].args[2]), mkeq(h[1], k[1]))
            for mp, r, left in Decider(pc=facts).solve(bs, eqs) or ():
                if not left and p.holds(facts, f_and(r, subst(c, mp))):
                    return True
            return False
    return False


def roomy():
    p = Proof()
    p.left = 100000
    return p


def idle(w, h, cands, clues, values, gone):
    return None if gone else "removes no candidate"


def eliminates(prog, name):
    """(verdict, text, families, obligations) for one elimination technique."""
    rep = Report("C14", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    try:
        steps = list(steps_of(I, public(I, SOLVERS, name)))
    except Unsupported as e:
        return None, "not followed: %s" % e, 0, 0
    why = None
    try:
        for s in steps:
            for bs, cond, ch in s.changes:
                if ch[1] != "remove_candidates":
                    return (False if Proof().holds(s.facts, cond) and not bs else None), "%s in an elimination step" % ch[1], len(steps), len(steps)
            facts, changes = by_digits(tuple(f for f in s.facts if not mentions(f, counted)), s.changes)
            if not removes(roomy(), facts, changes):
                why = "may remove no candidate"
                break
    except Unsupported as e:
        why = "not followed: %s" % e
    if why is None and steps:
        return True, "each of %d families of steps removes a candidate that is present" % len(steps), len(steps), len(steps)
    w = counter(steps, idle, SECONDS)
    if w is not None:
        return False, w, len(steps), len(steps)
    return None, why or "no step found", len(steps), len(steps)


def solved_by(I):
    """Replaces dlx(): one arbitrary solution that agrees with the filled fields, or none."""
    def dlx(I, args, kw, st, node):
        s0 = st.fork()
        yield s0, CollV("gen", [])
        s = st.fork()
        b = I.generic_board(s, "sol")
        i, j = Var("i", ZERO, N), Var("j", ZERO, N)
        a, z = P(Term("num", "s", P(i), P(j))), P(Term("num", "sol", P(i), P(j)))
        s.add(fnot(mkex((i, j), f_and(fnot(mkeq(a, ZERO)), fnot(mkeq(a, z))))))
        i, j = Var("i", ZERO, N), Var("j", ZERO, N)
        s.add(fnot(mkex((i, j), mkeq(P(Term("num", "sol", P(i), P(j))), ZERO))))
        yield s, CollV("gen", [("+", (), T, b)])
    I.stubs[("sudokutools.solve", "dlx")] = dlx


def fills(prog, name):
    """(verdict, text, families, obligations) for one technique that fills fields."""
    rep = Report("C14", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    solved_by(I)
    targets = []
    try:
        steps = [s for s in steps_of(I, public(I, SOLVERS, name)) if not no_elements(s.facts)]
        for s in steps:
            nums = [(bs, cond, ch) for bs, cond, ch in s.changes if ch[1] == "set_number"]
            if not nums:
                if len(s.changes) == 0 and Proof().holds(s.facts, T):
                    return None, "a step that fills no field", len(steps), len(steps)
                return None, "a step that may fill no field", len(steps), len(steps)
            for bs, cond, ch in nums:
                if bs or not Proof().holds(s.facts, cond):
                    return None, "which field is filled depends on %r" % (cond,), len(steps), len(steps)
                num = P(Term("num", "s", ch[2], ch[3]))
                facts = tuple(f for f in s.facts if not is_pick(f))
                for f in s.facts:                       # what holds for all fields holds for this one
                    if f[0] == "not" and f[1][0] == "ex" and len(f[1][1]) == 2 and all(x.dom is None and x.hi == N for x in f[1][1]):
                        facts += tuple(conj(fnot(subst(f[1][2], dict(zip(f[1][1], ch[2:4]))))))
                if not Proof().holds(facts, mkeq(num, ZERO)):
                    w = example(steps, "set_number", refilled)
                    return (False, w, len(steps), len(steps)) if w else (None, "the field may be filled already", len(steps), len(steps))
                targets.append((s.bs, facts, Tup(ch[2:4]), s.once))
                if ch[4] == ZERO:
                    return False, "a step clears a field", len(steps), len(steps)
    except Unsupported as e:
        return None, "not followed: %s" % e, 0, 0
    if not steps:
        return None, "no step found", 0, 0
    if twice(targets):
        return None, "a field may be filled twice", len(steps), len(steps)
    return True, "each of %d families of steps fills an empty field" % len(steps), len(steps), len(steps)


def example(steps, kind, wrong):
    """A step on a small sudoku for whose changes of a kind wrong(grid, candidates, [(field, value)]) gives a reason."""
    deadline = time.time() + SECONDS
    try:
        for w, h, count in ((2, 2, 24), (2, 3, 12), (3, 2, 12)):
            full = latin(w, h)
            for k, (_grid, cands) in enumerate(boards(w, h, count)):
                rnd = random.Random(k)
                gone = rnd.sample(sorted(full), 1 + k % 5)
                grid = {f: x for f, x in full.items() if f not in gone}
                seen = []
                for clues, values, fields in found_on(w, h, grid, cands, steps, deadline, kind, {"sol": (full, {})}):
                    why = wrong(grid, cands, fields, seen)
                    if why:
                        return "box size %dx%d, numbers %s, candidates %s: %s" % (w, h, grid, {f: sorted(c) for f, c in sorted(cands.items())}, why)
    except (NoValue, Slow):
        pass
    return None


def refilled(grid, cands, fields, seen):
    for t, v in fields:
        if grid.get(t):
            return "a step fills the field %s with %s, that has the number %s" % (t, v, grid[t])
    return None


def recalculated(grid, cands, fields, seen):
    for t, v in fields:
        if cands[t]:
            return "the candidates of the field %s, that has some, are calculated" % (t,)
    return None


def twice(fams):
    """May two of the steps (binders, facts, field, may several coincide) concern the same field?"""
    def guard(once, f, t):
        """Is the step only offered if its field is not in a list of fields that had one?"""
        return once and any(g[0] == "not" and (g[1][0] == "in" and g[1][1] == t and isinstance(g[1][2], CollV) and any(o[0] == "carried" for o in g[1][2].ops)
                                               or g[1][0] == "truth" and isinstance(g[1][1], Term) and g[1][1].op == "seen" and g[1][1].args[0] == t) for g in f)
    for i, (b1, f1, t1, o1) in enumerate(fams):
        for j, (b2, f2, t2, o2) in list(enumerate(fams))[i:]:
            if guard(o1, f1, t1) and guard(o2, f2, t2):
                continue                      # a step for a field is only offered if there was none before
            free = tuple(vars_of((f2, t2)) - bound_vars((f2, t2), set()) - {W, H})
            free = tuple(x for x in free if x.parent is None)
            out = refresh(free, f_and(*f2), t2)
            again = dict(zip(free, out[0]))
            same = f_and(*[mkeq(P(x), P(again[x])) for x in b1 if x in again]) if i == j else F
            if not Proof().holds(tuple(f1) + tuple(conj(out[1])) + tuple(conj(mkeq(t1, out[2]))), same):
                return True
    return False


def calculates(prog, name):
    """The calculation of candidates: one step for each field without candidates."""
    rep = Report("C14", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    def calc_candidates(I, args, kw, st, node):
        yield st, I.newcoll(st, "set", [("all", Term("calculated", I.plain(args[1], st), I.plain(args[2], st)))])
    I.stubs[("sudokutools.solve", "calc_candidates")] = calc_candidates
    try:
        steps = list(steps_of(I, public(I, SOLVERS, name)))
        for s in steps:
            if len(s.changes) != 1 or s.changes[0][0] or s.changes[0][2][1] != "set_candidates":
                return None, "other changes than one calculation", len(steps), len(steps)
            ch = s.changes[0][2]
            cand = Term("cand", "s", ch[2], ch[3])
            has = ("truth", cand)
            facts = tuple(s.facts)
            if not Proof().holds(facts, fnot(nonempty(CollV("set", [("all", cand)])))) and Decider(pc=facts).decide(has) is not False:
                w = example(steps, "set_candidates", recalculated)
                return (False, w, len(steps), len(steps)) if w else (None, "the field may have candidates already", len(steps), len(steps))
    except Unsupported as e:
        return None, "not followed: %s" % e, 0, 0
    if not steps:
        return None, "no step found", 0, 0
    if twice([(s.bs, tuple(s.facts), Tup(s.changes[0][2][2:4]), s.once) for s in steps]):
        return None, "a field may be offered twice", len(steps), len(steps)
    return True, "one step for each field without candidates", len(steps), len(steps)


# ---------------------------------------------------------------- the loop of solve()
class Rounds(object):
    """All rounds of the loops of solve()."""
    def __init__(self, I, classes):
        self.I, self.classes = I, classes
        self.count, self.trouble, self.wrong = 0, [], []
        self.inside = False
        self.exits = []
        self.amounts = {}
        for m, q in list(method_keys(I)):
            if q.endswith(".find"):
                I.stubs[(m, q)] = self.find
            elif q.endswith(".apply"):
                I.stubs[(m, q)] = self.apply
        tree = I.prog.trees[SOLVERS]
        for n in ast.walk(tree):
            if isinstance(n, ast.While):
                I.stubs[("while", id(n))] = self.loop
        read = I.bread

        def bread(*args, **kw):
            if self.inside:
                raise Unsupported("solve() looks at the sudoku while solving")
            return read(*args, **kw)
        I.bread = bread

        def init(I, args, kw, st, node):
            if self.inside:
                raise Unsupported("init_candidates while solving", node)
            yield st, K(None)
        I.stubs[("sudokutools.solve", "init_candidates")] = init

    def find(self, I, args, kw, st, node):
        cls = args[0]
        name = cls.name
        k = sum(1 for e in st.ev if "apply" in repr_tags(e))
        m = self.amounts.setdefault((name, k), Var("steps of %s#%d" % (name, k), ZERO, None))
        st.ev += (("find", name, m),)
        yield st, CollV("gen", [("+", (Var("k", ZERO, P(m)),), T, ObjV(cls, {}))])

    def apply(self, I, args, kw, st, node):
        r = I.rec(st, args[0]) if isinstance(args[0], Ref) else args[0]
        st.ev += (("apply", r.cls.name),)
        yield st, K(None)

    def loop(self, I, n, st, fr):
        if self.inside:
            raise Unsupported("loops inside of each other", n)
        before = st.ev
        todo = [(st, (), ())]                 # state, what the last rounds without steps found, their states
        seen = set()
        while todo:
            s, past, chain = todo.pop()
            key = (self.key(s, fr), past, chain)
            if key in seen:
                continue
            seen.add(key)
            self.count += 1
            if self.count > 400:
                raise Unsupported("too many rounds", n)
            s = s.fork()
            s.ev = ()
            self.inside = True
            outs = []
            for s1, f in I.cond(n.test, s, fr):
                if isinstance(f, Exc):
                    outs.append((s1, "raise", f))
                    continue
                for s2, b in I.branch(f, s1):
                    if not b:
                        outs.extend((s3, "left" if k == "n" else k, v) for s3, k, v in I.block(n.orelse, s2, fr))
                    else:
                        outs.extend(I.block(n.body, s2, fr))
            self.inside = False
            for s2, k, v in outs:
                if not s2.feasible() or self.impossible(s2):
                    continue
                if k in ("n", "cont"):
                    some, old = self.made(s2), self.key(s, fr)
                    if some is None:                      # with steps and without any
                        s3 = self.with_steps(s2, {})
                        some = "some" if self.simple(s2) else None
                        if s3 is not None and self.made(s3) == "none":
                            s4 = self.older(s3, fr)
                            if old in chain or self.key(s4, fr) == old:
                                self.wrong.append("goes round forever without applying a step")
                            else:
                                todo.append((s4, past + tuple(self.offered(s3)), chain + (old,)))
                    if some == "none":
                        if old in chain or self.key(s2, fr) == old:
                            self.wrong.append("goes round forever without applying a step")
                            continue
                        todo.append((self.older(s2, fr), past + tuple(self.offered(s2)), chain + (old,)))
                    elif some is None:
                        self.trouble.append("a round may apply no step")
                    else:
                        todo.append((self.older(s2, fr), (), ()))
                    continue
                self.left(s2, k, past)
                s3 = s2.fork()
                s3.ev = before + s3.ev
                yield s3, ("n" if k in ("brk", "left") else k), v

    def amounts_of(self, st):
        """How many steps the techniques that were asked in this round offered."""
        return [(e[1], e[2]) for e in st.ev if e[0] == "find"]

    def with_steps(self, st, given):
        """The state, if the techniques offer the given numbers of steps and the others none; None if that is impossible."""
        s = st.fork()
        for name, m in self.amounts_of(st):
            s.add(mkeq(P(m), P(given.get(m, 0))))
        return s if s.feasible() and not self.impossible(s) else None

    def simple(self, st):
        """Is each step that is offered in the round applied?"""
        asked = {m for _n, m in self.amounts_of(st)}
        done = set()
        for e in st.ev:
            if e[0] == "fam" and e[3][0] == "apply" and len(e[1]) == 1 and e[2] == T:
                done |= vars_of(e[1][0].hi)
        return asked <= done

    def impossible(self, st):
        D = Decider(pc=st.pc)
        return any(D.decide(f) is False for f in st.pc)

    def key(self, st, fr):
        """The state of the loop's variables."""
        text = repr(sorted((k, self.show(v, st)) for k, v in st.frames[fr.fid].items())) + repr(sorted(map(repr, st.pc)))
        names = {}
        return re.sub(r"'?\d{2,}", lambda x: names.setdefault(x.group(), "~%d" % len(names)), text)

    def show(self, v, st):
        r = self.I.rec(st, v) if isinstance(v, Ref) else None
        if isinstance(r, Board):
            return "a sudoku"
        if isinstance(v, Ref):
            return repr(self.I.plain(v, st))[:300]
        return repr(v)

    def older(self, st, fr):
        """The state at the end of a round as one at the beginning of the next."""
        s = st.fork()
        ms = [x for x in self.vars(st, fr) if x.name.startswith("steps of")]
        mp = {x: P(Var("earlier " + x.name, ZERO, None)) for x in ms}
        s.pc = tuple(subst(f, mp) for f in s.pc if not any(x.name.startswith("earlier") for x in vars_of(f)))
        for k, v in list(s.frames[fr.fid].items()):
            if not isinstance(v, Ref):
                s.set(fr.fid, k, subst(v, mp))
        return s

    def vars(self, st, fr):
        vs = set()
        for f in st.pc:
            vs |= vars_of(f)
        for v in st.frames[fr.fid].values():
            if not isinstance(v, Ref):
                try:
                    vs |= vars_of(v)
                except Exception:
                    pass
        return vs

    def made(self, st):
        """Was a step applied?  Its technique, "none" or None."""
        some = None
        got = "none"
        D = Decider(pc=st.pc)
        for e in st.ev:
            bs, cond = (), T
            while e[0] == "fam":
                bs, cond, e = bs + tuple(e[1]), f_and(cond, e[2]), e[3]
            if e[0] != "apply":
                continue
            r = D.decide(mkex(*refresh(bs, cond)) if bs else cond)
            if r is False:
                continue
            if e[1] == FIRST:
                self.wrong.append("candidates are calculated again in every round: %s is applied inside of the loop" % FIRST)
            if r is True:
                got = e[1]
            elif got == "none":
                got = None
        return got

    def offered(self, st):
        """Techniques that were asked and offered nothing, since the last step was applied."""
        D = Decider(pc=st.pc)
        out = []
        for e in st.ev:
            x, bs, cond = e, (), T
            while x[0] == "fam":
                bs, cond, x = bs + tuple(x[1]), f_and(cond, x[2]), x[3]
            if x[0] == "apply" and D.decide(mkex(*refresh(bs, cond)) if bs else cond) is not False:
                out = []
            elif x[0] == "find" and not bs and D.decide(mklt(-P(x[2]))) is False:
                out.append(x[1])
        return out

    def left(self, st, kind, past):
        if kind == "raise":
            self.trouble.append("an exception leaves the loop")
            return
        got = self.made(st)
        if got is None:
            for name, m in self.amounts_of(st):
                s = self.with_steps(st, {m: 1})
                if s is not None and self.made(s) is not None and name != "Bruteforce":
                    self.left(s, kind, past)
            s = self.with_steps(st, {})
            if s is not None and self.made(s) == "none":
                self.left(s, kind, past)
            self.trouble.append("it is not known whether solving ends after a step")
            return
        asked = set(self.offered(st)) | (set(past) if got == "none" else set())
        missing = [c for c in self.classes if c != FIRST and c not in asked]
        if not missing:
            self.exits.append(kind)
        elif got == "Bruteforce":
            self.trouble.append("solving may end although %s was not asked for a step" % missing[0])
        else:
            self.wrong.append("solving ends although %s was not asked for a step%s" % (missing[0], "" if got == "none" else " since the last one (%s)" % got))


def repr_tags(e):
    out = []
    while e[0] == "fam":
        e = e[3]
    out.append(e[0])
    return out


def method_keys(I):
    tree = I.prog.trees[SOLVERS]
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    yield SOLVERS, c.name + "." + f.name


def rounds(prog, rep):
    I = Interp(prog)
    I.setup_boards_or(rep)
    con = "solve"
    f = public(I, SOLVERS, "solve")
    loc = where(I, f)
    try:
        st = State()
        classes = [c.name for c in step_classes(I)]
    except Unsupported as e:
        rep.undecided("rounds", con, "not followed: %s" % e)
        return
    R = Rounds(I, classes)
    st = State()
    b = I.generic_board(st, "s")
    try:
        ends = list(I.call(f, [b], {}, st))
    except Unsupported as e:
        rep.undecided("rounds", con, "not followed: %s" % e)
        return
    rep.count("rounds of the loop", R.count)
    for s, v in ends:
        if isinstance(v, Exc):
            R.trouble.append("solve() raises %s" % v.name)
    first = [[e for e in s.ev if repr_tags(e)[0] == "apply"] for s, v in ends]
    if R.wrong:
        rep.violate("rounds", con, R.wrong[0], loc)
    elif R.trouble:
        rep.undecided("rounds", con, R.trouble[0])
    elif not R.count or not R.exits:
        rep.undecided("rounds", con, "no loop found")
    else:
        rep.holds("rounds", con, "every round applies a step, the loop is left when no technique offers one")


def c14(prog):
    rep = Report("C14", prog, RULE, ASSUME)
    I = prepared(prog, rep)
    if not I.templates:
        return rep
    rounds(prog, rep)
    only = os.environ.get("VERIF_ONLY")
    names = [c.name for c in step_classes(I)]
    names = sorted(names if only is None else [only], key=lambda n: -("Hidden" in n) - len(n))
    for name, (ok, text, families, n) in zip(names, in_parallel(progress_of, prog, names)):
        if ok == "broken":
            raise AnalysisBroken(text)
        f = public(I, SOLVERS, name).find("find")
        rep.count("families of steps", families)
        if ok is True:
            rep.holds("progress", name, text)
        elif ok is False:
            rep.violate("progress", name, text, where(I, f) if f else "?")
        else:
            rep.undecided("progress", name, text)
    return rep


def progress_of(prog, name):
    return (calculates if name == FIRST else fills if name in SINGLES else eliminates)(prog, name)
