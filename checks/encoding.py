"""C30: sudokus that are written as text and read back."""
import random
import time

from .lib import *
from .failures import attempt
from .notation import members
from sa.logic import flat
from sa.sym import NONE, Board

MOD = "sudokutools.sudoku"
RULE = ("abstract interpretation of encode() on a sudoku of a given box size with arbitrary numbers and arbitrary candidates in every field, into texts of constant pieces, "
        "decimal numbers and runs of digits, and of decode() on these texts: on every path the number and the candidates of every field read are, decided by "
        "arithmetic and set membership, those of the field written, and the box size is the same")
ASSUME = ["Python text, list, set and integer semantics as modelled in sa/sym.py and sa/symlib.py",
          "numbers lie between 0 and the number of rows, candidates between 1 and the number of rows",
          "the box sizes and separators of a table stand for all unambiguous ones; candidates are only written for up to nine numbers"]
ONE_DIGIT = ((2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3))
MORE = ((5, 2), (2, 5), (4, 3), (3, 4), (4, 4))
# (separator of rows, of columns, arguments for reading)
PLAIN = (("", "", {}), ("\n", "", {}), ("\n", " ", {}), ("", "\t", {}))
SEPARATED = ((",", ",", {"number_sep": ","}), (" ", " ", {"number_sep": " "}), ("\n", ";", {"number_sep": ";"}), ("\n", " ", {"number_sep": " "}))


def board(I, w, h, st, numbers, candidates):
    """A new sudoku with the given contents: [(state, sudoku)]."""
    n = w * h
    for s, b in I.new_board(I.cls, [Tup([P(w), P(h)])], {}, st, None):
        if isinstance(b, Exc):
            raise Unsupported("the constructor raises %s" % b.name)
        log = []
        for f in sorted(numbers):
            t = Tup([P(f[0]), P(f[1])])
            log.append(("n", (), T, t, numbers[f]))
            log.append(("c", (), T, t, candidates[f]))
        s.heap[b.id] = Board("s", s.heap[b.id].attrs, log, cls=I.cls)
        yield s, b


def arbitrary(w, h):
    n = w * h
    fields = [(r, c) for r in range(n) for c in range(n)]
    numbers = {f: P(Var("n", ZERO, P(n + 1))) for f in fields}
    candidates = {}
    for f in fields:
        v = Var("i", ONE, P(n + 1))
        candidates[f] = CollV("set", [("+", (v,), mkin(P(v), Term("cand", "s", P(f[0]), P(f[1]))), P(v))])
    return numbers, candidates


def method(I, name, obj):
    f = I.cls.find(name)
    if f is None:
        raise AnalysisBroken("Sudoku.%s not found" % name)
    return BoundV(f, obj)


def one(I, name, obj, args, st):
    outs = outcomes(I, method(I, name, obj), args, {}, st)
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported("%s of the sudoku read" % name)
    return outs[0][1]


def attr(I, b, name, s):
    rec = s.heap[b.id]
    return rec.attrs.get(name) if isinstance(rec, Board) else None


def same_candidates(s, got, want):
    fl = flat(got) if isinstance(got, (CollV, Tup)) else None
    if fl is None:
        return False
    for bs, c, e in fl:
        bs, c, e = refresh(bs, c, e)
        if Decider(pc=tuple(s.pc) + (c,)).decide(mkin(e, want)) is not True:
            return False
    for bs, c, e in flat(want):
        bs, c, e = refresh(bs, c, e)
        if Decider(pc=tuple(s.pc) + (c,)).decide(mkin(e, got)) is not True:
            return False
    return True


def texts(I, w, h, rows, cols, inc, numbers, candidates):
    for s, b in board(I, w, h, State(), numbers, candidates):
        yield from outcomes(I, method(I, "encode", b), [], {"row_sep": K(rows), "col_sep": K(cols), "include_candidates": T if inc else F}, s)


def proved(I, rep, w, h, rows, cols, inc, kw):
    """(True or None, reason)."""
    numbers, candidates = arbitrary(w, h)
    n = 0
    for s, t in texts(I, w, h, rows, cols, inc, numbers, candidates):
        if not s.feasible():
            continue
        if isinstance(t, Exc):
            return None, "writing raises %s" % t.name
        for s2, v in outcomes(I, method(I, "decode", I.cls), [t], kw, s):
            if not s2.feasible():
                continue
            rep.count("paths", 1)
            if isinstance(v, Exc):
                return None, "reading raises %s when %s" % (v.name, show(f_and(*s2.pc)))
            if not (isinstance(v, Ref) and isinstance(s2.heap.get(v.id), Board)):
                return None, "reading returns %r" % (v,)
            if attr(I, v, "box_width", s2) != P(w) or attr(I, v, "box_height", s2) != P(h):
                return None, "another box size is read"
            for f in numbers:
                t2 = Tup([P(f[0]), P(f[1])])
                if Decider(pc=tuple(s2.pc)).decide(mkeq(one(I, "__getitem__", v, [t2], s2), numbers[f])) is not True:
                    return None, "the number of %s may be another" % (f,)
                if inc and not same_candidates(s2, one(I, "get_candidates", v, list(t2.items), s2), candidates[f]):
                    return None, "the candidates of %s may be others" % (f,)
                rep.count("fields compared", 1)
            n += 1
    return (True, "%d paths" % n) if n else (None, "no outcome")


def constant_set(xs):
    return CollV("set", [("+", (), T, P(x)) for x in sorted(xs)])


def contents(w, h):
    """Constant contents that tell fields apart."""
    n = w * h
    fields = [(r, c) for r in range(n) for c in range(n)]
    for k in range(4):
        rnd = random.Random(10 * n + k)
        nums = {f: (f[0] + f[1]) % (n + 1) if k == 0 else 0 if k == 1 else rnd.randrange(n + 1) for f in fields}
        cands = {f: {rnd.randrange(1, n + 1) for _ in range(rnd.randrange(0, n + 1))} if k != 1 else set() for f in fields}
        if k == 2:
            cands[(0, 0)], cands[(n - 1, n - 1)] = set(range(1, n + 1)), {n}
        yield nums, cands


def differs(I, w, h, rows, cols, inc, kw):
    """A difference for given contents, by constant propagation; None if there is none or it is not known."""
    for nums, cands in contents(w, h):
        fresh_budget()
        say = "box size %dx%d, numbers %s%s" % (w, h, [[nums[(r, c)] for c in range(w * h)] for r in range(w * h)],
                                               ", candidates %s" % [[sorted(cands[(r, c)]) for c in range(w * h)] for r in range(w * h)] if inc else "")
        for s, t in texts(I, w, h, rows, cols, inc, {f: P(x) for f, x in nums.items()}, {f: constant_set(x) for f, x in cands.items()}):
            if s.pc:
                return None
            if isinstance(t, Exc):
                return "%s: writing raises %s" % (say, t.name)
            if not (isinstance(t, K) and isinstance(t.v, str)):
                return None
            for s2, v in outcomes(I, method(I, "decode", I.cls), [t], kw, s):
                if s2.pc:
                    return None
                say2 = "%s: written as %r, " % (say, t.v)
                if isinstance(v, Exc):
                    return say2 + "and reading that raises %s" % v.name
                if not (isinstance(v, Ref) and isinstance(s2.heap.get(v.id), Board)):
                    return None
                size = attr(I, v, "box_width", s2), attr(I, v, "box_height", s2)
                if size != (P(w), P(h)):
                    return say2 + "read with box size %r" % (size,) if all(isinstance(x, Poly) and x.isconst() for x in size) else None
                for f in sorted(nums):
                    x = one(I, "__getitem__", v, [Tup([P(f[0]), P(f[1])])], s2)
                    if not (isinstance(x, Poly) and x.isconst()):
                        return None
                    if x.cval() != nums[f]:
                        return say2 + "the number of %s is read as %d" % (f, x.cval())
                    if not inc:
                        continue
                    xs = members(one(I, "get_candidates", v, [P(f[0]), P(f[1])], s2))
                    if xs is None or not all(isinstance(y, Poly) and y.isconst() for y in xs):
                        return None
                    if {y.cval() for y in xs} != cands[f]:
                        return say2 + "the candidates of %s are read as %s" % (f, sorted({y.cval() for y in xs}))
    return None


def cases():
    for w, h in ONE_DIGIT + MORE:
        one_digit = w * h < 10
        for rows, cols, kw in (PLAIN if one_digit else ()) + SEPARATED:
            if w * h > 1 or not kw:
                for inc in (False, True) if one_digit and not kw else (False,):
                    for given in (True, False) if w == h and w > 1 else (True,):
                        yield w, h, rows, cols, inc, kw, given


def c30(prog):
    rep = Report("C30", prog, RULE, ASSUME)
    I = Interp(prog)
    I.setup_boards_or(rep)
    if not I.templates:
        return rep
    I.merging = True
    I.limit = 20000                   # statements of all paths of one case; the paths of sound code are few
    begin, failed, found = time.time(), [], []
    loc = where(I, method(I, "decode", I.cls).func)
    for w, h, rows, cols, inc, kw, given in cases():
        con = "%dx%d%s, rows joined by %r, columns by %r%s" % (w, h, " with candidates" if inc else "", rows, cols, ", read with %r" % kw["number_sep"] if kw else "") + \
            ("" if given else ", box size not given")
        args = {k: K(x) for k, x in kw.items()}
        if given:
            args["box_size"] = Tup([P(w), P(h)])

        def go():
            try:
                ok, why = proved(I, rep, w, h, rows, cols, inc, args) if len(failed) < 6 else (None, "not examined")
            except Unsupported as e:
                ok, why = None, "no transfer function: %s" % e
            if ok:
                rep.holds("written and read", con, why)
                return
            failed.append(con)
            fresh_budget()
            try:
                bad = differs(I, w, h, rows, cols, inc, args)
            except Unsupported:
                bad = None
            if bad:
                found.append(con)
                rep.violate("written and read", con, bad, loc)
            else:
                rep.undecided("written and read", con, why)
        if time.time() - begin > 400:
            rep.undecided("written and read", con, "not examined")
            continue
        attempt(rep, "written and read", con, go)
        if found:
            break
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
