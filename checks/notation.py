"""C06: coordinates that are written and read back."""
import itertools
import os
import string

from .lib import *
from .failures import attempt
from .houses import raises
from sa.sym import NONE, exc_matches
from sa.symlib import text

MOD = "sudokutools.notation"
RULE = ("abstract interpretation of encode() on sets of fields given by their mixed-radix digits, for all box widths and heights, into texts of constant pieces and "
        "decimal numbers, and of decode() on each of these texts: on every pair of paths the fields read are, decided by linear arithmetic over the digits, exactly the "
        "fields written; for fields outside the grid and for box dimensions that are not positive integers every path must raise ValueError")
BOXES = (("rows and columns", F), ("boxes and parts", T), ("the shorter one", NONE))
# separators for groups and for numbers; "" stands for the default
SEPARATORS = ((";", ""), (",", ","), (" ", ","), (";", "."), (", ", "-"))


def dnf(b, c):
    """[(binders, condition)] with existential quantifiers and disjunctions pulled out."""
    from sa.logic import conj
    out = [(b, ())]
    for g in conj(c):
        if g[0] == "ex":
            alts = dnf(*refresh(g[1], g[2]))
        elif g[0] == "or":
            alts = [x for h in g[1] for x in dnf((), h)]
        else:
            alts = [((), g)]
        out = [(x + y, cs + (h,)) for x, cs in out for y, h in alts]
    return [(x, f_and(*cs)) for x, cs in out]


def elements(v, D):
    """[(element, condition, binders that are left)] of a collection, or None."""
    out = []
    for o in ([("+", (), T, x) for x in v.items] if isinstance(v, Tup) else v.ops):
        if o[0] == "all":
            sub = elements(o[1], D) if isinstance(o[1], (Tup, CollV)) else None
            if sub is None:
                return None
            out += sub
            continue
        if o[0] != "+":
            return None
        b, c, e = refresh(o[1], o[2], o[3])
        for b2, c2 in dnf(b, c):
            alts = D.solve(b2, c2)
            if alts is None:
                return None
            out.extend((subst(e, mp), r, left) for mp, r, left in alts)
    return out


def same_set(st, v, fields):
    """(True or None, reason): are the elements of v exactly the fields?"""
    if not isinstance(v, (Tup, CollV)):
        return None, "the result is %r" % (v,)
    D = Decider(pc=tuple(st.pc))
    els = elements(v, D)
    if els is None:
        return None, "elements of %r" % (v,)
    for t in fields:
        if not any(D.decide(f_and(c, mkeq(e, t))) is True for e, c, left in els if not left):
            return None, "%r is not surely in %r" % (t, v)
    for e, c, left in els:
        D2 = Decider(pc=tuple(st.pc) + (c,))
        if not any(D2.decide(mkeq(e, t)) is True for t in fields):
            return None, "%r%s in %r is not surely one of the fields written" % (e, " if " + show(c) if c != T else "", v)
    return True, ""


def round_trip(I, rep, con, enc, dec, fields, facts, kw, seps, w=PW, h=PH):
    """(True or None, reason) for one set of fields."""
    n = 0
    st = State().fork(*facts)
    for s, t in I.call(enc, [Tup(fields), w, h], dict(kw, **seps), st):
        if not s.feasible():
            continue
        n += 1
        if isinstance(t, Exc):
            return None, "writing raises %s" % t.name
        for s2, v in outcomes(I, dec, [t, w, h], dict(seps), s.fork()):
            rep.count("pairs of paths", 1)
            if isinstance(v, Exc):
                return None, "reading %r raises %s when %s" % (t, v.name, show(f_and(*s2.pc)))
            ok, why = same_set(s2, v, fields)
            if not ok:
                return None, "%r: %s" % (t, why)
    return (True, "%d ways to write" % n) if n else (None, "no outcome")


def constant(I, enc, dec, w, h, fields, kw, seps):
    """A difference for given numbers, by constant propagation; None if there is none or it is not known."""
    for s, t in I.call(enc, [Tup([Tup([P(r), P(c)]) for r, c in fields]), P(w), P(h)], dict(kw, **seps), State()):
        at = "box size %dx%d, fields %s" % (w, h, list(fields))
        if not s.feasible():
            continue
        if isinstance(t, Exc):
            return "%s: writing raises %s" % (at, t.name) if not s.pc else None
        if not (isinstance(t, K) and isinstance(t.v, str)):
            return "%s: written as %r, which is no text" % (at, t) if not s.pc and not isinstance(t, (StrV, Term, Poly)) else None
        for s2, v in outcomes(I, dec, [t, P(w), P(h)], dict(seps), s.fork()):
            if s2.pc:
                return None
            if isinstance(v, Exc):
                return "%s: written as %r, and reading that raises %s" % (at, t.v, v.name)
            got = fixed(v)
            if got is not None and got != set(fields):
                return "%s: written as %r, read as %s" % (at, t.v, sorted(got))
    return None


def fixed(v):
    """The set of fields that a collection of constants is, or None."""
    xs = members(v)
    if xs is None or not all(isinstance(x, Tup) and len(x.items) == 2 and all(isinstance(y, Poly) and y.isconst() for y in x.items) for x in xs):
        return None
    return {tuple(y.cval() for y in x.items) for x in xs}


def members(v):
    """The elements a collection is given without binders and conditions, or None."""
    if isinstance(v, Tup):
        return list(v.items)
    if not isinstance(v, CollV):
        return None
    out = []
    for o in v.ops:
        if o[0] == "all":
            more = members(o[1])
        elif o[0] == "+" and not o[1]:
            more = [o[3]] if o[2] == T else [] if o[2] == F else None
        else:
            more = None
        if more is None:
            return None
        out += more
    return out


def examples(n_fields):
    """Fields of a few small grids: (w, h, fields)."""
    for w, h in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (2, 5)):
        n = w * h
        some = sorted({0, 1 % n, n // 2, n - 2 if n > 1 else 0, n - 1, 9 % n})
        cells = [(r, c) for r in some for c in some]
        if n_fields == 1:
            yield from ((w, h, (f,)) for f in cells)
        else:
            yield from ((w, h, fs) for fs in itertools.islice(itertools.combinations(cells[::-1], n_fields), 0, 300, 7))


def check_set(I, rep, name, enc, dec, fields, facts, how, ub, seps, n_fields, sets=None):
    con = "%s written as %s%s" % (name, how, "".join(", %s=%r" % (k, v.v) for k, v in sorted(seps.items())))
    kw = {"use_boxes": ub}

    def go():
        try:
            ok, why = round_trip(I, rep, con, enc, dec, fields, facts, kw, seps)
        except Unsupported as e:
            ok, why = None, "no transfer function: %s" % e
        if ok:
            rep.holds("written and read", con, why)
            return
        for w, h, fs in sets or examples(n_fields):
            fresh_budget()
            try:
                bad = constant(I, enc, dec, w, h, fs, kw, seps)
            except Unsupported:
                continue
            if bad:
                rep.violate("written and read", con, bad, where(I, enc))
                return
        rep.undecided("written and read", con, why)
    attempt(rep, "written and read", con, go)


def apart(f, g):
    """Ways in which two fields can lie to each other."""
    box = [PH * P(x.bR) + P(x.bC) for x in (f, g)]
    part = [PW * P(x.pR) + P(x.pC) for x in (f, g)]
    less = [mklt(f.row - g.row), mklt(f.col - g.col), mklt(box[0] - box[1]), mklt(part[0] - part[1])]
    more = [mklt(g.row - f.row), mklt(g.col - f.col), mklt(box[1] - box[0]), mklt(part[1] - part[0])]
    same = [mkeqp(f.row - g.row), mkeqp(f.col - g.col), mkeqp(box[0] - box[1]), mkeqp(part[0] - part[1])]
    yield "two fields one after the other", less
    yield "two fields the other way round", [more[0], less[1], more[2], more[3]]
    yield "two fields of a row", [same[0], less[1], less[2], less[3]]
    yield "two fields of a column", [less[0], same[1], less[2], more[3]]
    yield "two fields of a box", [less[0], more[1], same[2], less[3]]
    yield "two fields with the same part", [less[0], less[1], less[2], same[3]]


# sets of more than two fields: (name, pairs of the indices of numbers a0 < a1 < ... of rows or boxes and b0 < b1 < ... of columns or parts)
PATTERNS = (("three numbers with a common one", ((2, 0), (0, 0), (1, 0))), ("one number with three", ((0, 1), (0, 2), (0, 0))),
            ("a rectangle", ((1, 1), (0, 0), (1, 0), (0, 1))), ("three corners", ((0, 0), (1, 1), (0, 1))),
            ("two numbers around a third", ((0, 0), (1, 1), (2, 0))),
            ("two numbers and one with more", ((0, 0), (1, 0), (2, 0), (2, 1))),
            ("two numbers and one with less", ((0, 0), (0, 1), (1, 1), (1, 0), (2, 0))),
            ("two pairs crossed", ((0, 1), (1, 0), (2, 1), (3, 0))),
            ("four numbers with a common one", ((1, 0), (3, 0), (0, 0), (2, 0))),
            ("one number with four", ((0, 1), (0, 3), (0, 2), (0, 0))))
THOROUGH = (("four numbers and another", ((1, 0), (2, 0), (3, 0), (0, 0), (4, 0), (4, 1))),
            ("two by three", ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2))))


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"


def groups(box):
    """Sets of more than two fields: (name, fields, facts, examples)."""
    rows = [Field(str(i)) for i in range(1, 6)]
    if box:
        first = [PH * P(f.bR) + P(f.bC) for f in rows]
        second = [PW * P(f.pR) + P(f.pC) for f in rows]
    else:
        first = [f.row for f in rows]
        second = [f.col for f in rows]

    def field(i, j):
        a, b = rows[i], rows[j]
        if box:
            return Tup([PH * P(a.bR) + P(b.pR), PW * P(a.bC) + P(b.pC)])
        return Tup([a.row, b.col])

    def cell(w, h, a, b):
        return (a // h * h + b // w, a % h * w + b % w) if box else (a, b)
    for name, ij in PATTERNS + (THOROUGH if thorough() else ()):
        fields = [field(i, j) for i, j in ij]
        used = [sorted({i for i, _j in ij}), sorted({j for _i, j in ij})]
        facts = [mklt(nums[i] - nums[j]) for nums, us in ((first, used[0]), (second, used[1])) for i, j in itertools.combinations(us, 2)]
        sets = []
        for w, h in ((3, 2), (2, 3), (3, 3), (4, 3), (5, 2), (2, 5)):
            n = w * h
            for a in ((0, 1, 2, 3, 4), (0, 1, n - 3, n - 2, n - 1), (1, 2, 3, 4, n - 1)):
                for b in ((0, 1, 2, 3, 4), (1, 2, n - 3, n - 2, n - 1), (0, 2, 3, 4, 5)):
                    if len(set(a)) == len(set(b)) == 5:
                        sets.append((w, h, tuple(cell(w, h, a[i], b[j]) for i, j in ij)))
        yield name, fields, facts, sets


def check_ranges(I, rep, enc, dec):
    def envs(mk, k):
        def go():
            for w, h in shapes(3):
                for i in range(3):
                    e = Env(w, h, {k: i})
                    yield e, "box size %dx%d, number %d" % (w, h, e.val(mk(k)))
        return go
    for how, ub in BOXES:
        for what, mk in (("below 0", lambda k: -P(k) - 1), ("above the grid", lambda k: PW * PH + P(k))):
            for where_, at in (("row", 0), ("column", 1)):
                for more in (False, True):
                    k = Var("k", ZERO, None)
                    good = Field()
                    bad = [good.row, good.col]
                    bad[at] = mk(k)
                    con = "a %s number %s%s, written as %s" % (where_, what, " after a field of the grid" if more else "", how)
                    fields = [good.tup] * more + [Tup(bad)]

                    def go(fields=fields, con=con, mk=mk, k=k):
                        outs = outcomes(I, enc, [Tup(fields), PW, PH], {"use_boxes": ub}, State())
                        rep.count("paths", len(outs))
                        raises(I, rep, "outside the grid", con, where(I, enc), outs, "ValueError", envs(mk, k))
                    attempt(rep, "outside the grid", con, go)
    for letter in "rcbp":
        for what, mk, facts in (("0", lambda k: ZERO, ()), ("above the grid", lambda k: PW * PH + 1 + P(k), ())):
            k = Var("k", ZERO, None)
            con = "reading the number %s after %s" % (what, letter)

            def go(mk=mk, k=k, con=con, letter=letter, facts=facts):
                t = StrV([letter, Term("str", mk(k))]) if mk(k) != ZERO else K(letter + "0")
                outs = outcomes(I, dec, [t, PW, PH], {"nsep": K(",")}, State())
                rep.count("paths", len(outs))
                raises(I, rep, "outside the grid", con, where(I, dec), outs, "ValueError", envs(mk, k))
            attempt(rep, "outside the grid", con, go)


def check_dimensions(I, rep, enc, dec):
    k = Var("k", ZERO, None)
    for what, v in (("0", ZERO), ("a negative number", -P(k) - 1), ("2.5", K(2.5)), ("-0.5", K(-0.5))):
        for dim in ("width", "height"):
            for name, f, first in (("encode", enc, Tup([])), ("encode of a field", enc, Tup([Tup([ZERO, ZERO])])), ("decode", dec, K("r1c1"))):
                con = "%s with %s %s" % (name, dim, what)

                def go(f=f, first=first, con=con, dim=dim, v=v):
                    kw = {"width": PW, "height": PH}
                    kw[dim] = v
                    if isinstance(v, K):
                        # both numbers known: the arithmetic of the wrong number is folded
                        for n in (1, 2, 3):
                            for _s, r in outcomes(I, f, [first], dict(kw, **{"height" if dim == "width" else "width": P(n)}), State()):
                                if not _s.pc and not (isinstance(r, Exc) and r.name == "ValueError"):
                                    rep.violate("dimensions", con, "%s for %s %s and %s %d" % (
                                        "raises " + r.name if isinstance(r, Exc) else "returns a result", dim, what, "height" if dim == "width" else "width", n), where(I, f))
                                    return
                    outs = outcomes(I, f, [first], kw, State())
                    rep.count("paths", len(outs))
                    raises(I, rep, "dimensions", con, where(I, f), outs, "ValueError", lambda: [])
                attempt(rep, "dimensions", con, go)


def c06(prog):
    rep = Report("C06", prog, RULE, ["Python text, set, dict, sorting and integer semantics as modelled in sa/sym.py and sa/symlib.py",
                                     "sets of one and two arbitrary fields, and ten patterns of three to five fields (twelve of up to six in the thorough tier), stand for the sets of fields that are written",
                                     "the separators are the default ones and those of a table"])
    I = Interp(prog)
    enc, dec = public(I, MOD, "encode"), public(I, MOD, "decode")
    f, g = Field(), Field("2")
    for how, ub in BOXES:
        check_set(I, rep, "a field", enc, dec, [f.tup], (), how, ub, {}, 1)
        for sep, nsep in SEPARATORS:
            seps = {"sep": K(sep)}
            if nsep:
                seps["nsep"] = K(nsep)
            check_set(I, rep, "a field", enc, dec, [f.tup], (), how, ub, seps, 1)
            if ub != NONE:
                check_set(I, rep, "two fields", enc, dec, [f.tup, g.tup], (), how, ub, seps, 2)
        if ub != NONE or thorough():
            check_set(I, rep, "two fields", enc, dec, [f.tup, g.tup], (), how, ub, {}, 2)
        else:
            for name, facts in apart(f, g):
                check_set(I, rep, name, enc, dec, [f.tup, g.tup], facts, how, ub, {}, 2)
        if ub != NONE:
            for name, fields, facts, sets in groups(ub == T):
                check_set(I, rep, name, enc, dec, fields, facts, how, ub, {}, len(fields), sets)
    check_ranges(I, rep, enc, dec)
    check_dimensions(I, rep, enc, dec)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep


# ---------------------------------------------------------------- C07
RULE07 = ("abstract interpretation of decode() on texts with one malformed group - well-formed beginnings with arbitrary numbers, then the malformed place, then an "
          "arbitrary rest of the group, alone and between other groups, for all box widths and heights: every path must raise ValueError")
LETTERS = "rcbp"
# texts put in the place of an arbitrary character or rest when a counterexample is looked for
ILLEGAL = ("x", "R", "-", "+", ".", "_", ";", "\u00b2", "\u0663", "'")
RESTS = ("", "1", "c1", "r1", "p2b1")
DIMS = ((3, 3), (4, 3))


class Mal(object):
    """One malformed text: constants, ("n", name) for a number, ("bad",) for an illegal character, ("rest",) for any end of the group."""

    def __init__(self, name, parts, nsep=None, note=""):
        self.name, self.parts, self.nsep = name, parts, nsep
        self.single = not nsep                  # numbers have one digit

    def symbolic(self, sep, st):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "n":
                k = Var(p[1], ZERO, None)
                st.add(mklt(P(k) - PW * PH))
                if self.single:
                    st.add(mklt(P(k) - 9))
                out.append(Term("str", P(k) + 1))
            elif p[0] == "bad":
                out.append(Term("char", Term("text", "bad", "".join(sorted(set(LETTERS + string.digits + string.whitespace + sep + self.nsep + ",")))), ZERO))
            else:
                out.extend(text("rest", sep + string.whitespace).parts)
        return StrV(out) if any(not isinstance(p, str) for p in out) else K("".join(out))

    def constants(self, sep):
        bads = [c for c in ILLEGAL if c not in sep + self.nsep] if ("bad",) in self.parts else [""]
        rests = RESTS if ("rest",) in self.parts else [""]
        for bad, rest in itertools.product(bads, rests):
            yield "".join(p if isinstance(p, str) else "1" if p[0] == "n" else bad if p[0] == "bad" else rest for p in self.parts)


def number(name):
    return ("n", name)


def beginnings(most, nsep):
    """Well-formed beginnings of a group of up to so many letters: (name, parts, the letters)."""
    for k in range(most + 1):
        for letters in itertools.permutations(LETTERS, k):
            if k > 1 and letters not in SAMPLES and not thorough():
                continue
            parts = []
            for i, c in enumerate(letters):
                parts += [c, number("%s1" % c)]
            yield "".join(letters), parts, letters


SAMPLES = (("r", "c"), ("b", "p"), ("c", "b"), ("p", "r"), ("r", "c", "b"), ("p", "b", "c"), ("r", "c", "b", "p"), ("b", "p", "c", "r"))


def malformed(nsep, sep):
    for name, parts, letters in beginnings(4, nsep):
        after = " after " + name if name else ""
        yield Mal("an illegal character%s" % after, parts + [("bad",), ("rest",)], nsep)
        for c in LETTERS:
            if c in letters:
                yield Mal("%s repeated%s" % (c, after), parts + [c, ("rest",)], nsep)
            else:
                yield Mal("%s without number%s" % (c, after), parts + [c], nsep)
                if letters:
                    yield Mal("%s without number before %s" % (c, name), [c] + parts, nsep)
                yield Mal("an illegal character instead of a number for %s%s" % (c, after), parts + [c, ("bad",), ("rest",)], nsep)
                yield Mal("%s repeated without number%s" % (c, after), parts + [c, c, ("rest",)], nsep)
    for d in string.digits:
        yield Mal("%s at the beginning" % d, [d, ("rest",)], nsep)
    yield Mal("nothing", [], nsep)
    good, more = ["r", number("r8"), "c", number("c8")], ["b", number("b8"), "p", number("p8")]
    yield Mal("only a separator", [sep], nsep)
    yield Mal("a separator before the first group", [sep] + good, nsep)
    yield Mal("a separator behind the last group", good + [sep], nsep)
    yield Mal("two separators between groups", good + [sep, sep] + more, nsep)
    if nsep:
        yield Mal("a separator at the beginning", [nsep, "1"], nsep)
        yield Mal("only a separator after r", ["r", nsep], nsep)
        yield Mal("two separators", ["r", number("r1"), nsep, nsep, number("r2"), "c", number("c1")], nsep)
        if nsep != sep:
            yield Mal("a separator at the beginning of any group", [nsep, ("rest",)], nsep)
            yield Mal("a separator behind a number", ["r", number("r1"), nsep, "c", number("c1")], nsep)
        yield Mal("a separator before a number", ["r", nsep, number("r1"), "c", number("c1")], nsep)


def surroundings(m, sep):
    yield "", m
    good, more = ["r", number("r8"), "c", number("c8")], ["b", number("b8"), "p", number("p8")]
    if m.parts and not isinstance(m.parts[0], str):
        return
    if m.parts and m.parts[0] not in LETTERS:
        return
    yield " behind another group", Mal(m.name, good + [sep] + m.parts, m.nsep)
    if m.parts:
        yield " before another group", Mal(m.name, m.parts + [sep] + more, m.nsep)
        yield " between groups", Mal(m.name, good + [sep] + m.parts + [sep] + more, m.nsep)


def rejects(v):
    return isinstance(v, Exc) and exc_matches(v.name, "ValueError")


def check_malformed(I, rep, dec, m, where_, sep, seps, tried):
    con = "%s%s%s" % (m.name, where_, "".join(", %s=%r" % (k, v.v) for k, v in sorted(seps.items())))

    def go():
        st = State()
        if "nsep" not in seps:
            st.add(mklt(PW * PH - 10) if not m.nsep else mklt(9 - PW * PH))
        t = m.symbolic(sep, st)
        try:
            outs = outcomes(I, dec, [t, PW, PH], dict(seps), st)
            rep.count("paths", len(outs))
            bad = [(s, v) for s, v in outs if not rejects(v)]
            why = "" if outs else "no outcome"
        except Unsupported as e:
            bad, why = None, "no transfer function: %s" % e
        if bad == [] and not why:
            rep.holds("rejected", con, "%d paths, all raise ValueError" % len(outs))
            return
        for w, h in DIMS:
            if "nsep" not in seps and (w * h > 9) != bool(m.nsep):
                continue
            for c in m.constants(sep):
                key = (w, h, c) + tuple(sorted(seps))
                if key in tried or rep.viol:
                    continue
                tried.add(key)
                fresh_budget()
                try:
                    for s, v in outcomes(I, dec, [K(c), P(w), P(h)], dict(seps), State()):
                        if not s.pc and not rejects(v):
                            rep.violate("rejected", con, "box size %dx%d: decode(%r) %s" % (w, h, c, "raises " + v.name if isinstance(v, Exc) else "returns a result"), where(I, dec))
                            return
                except Unsupported:
                    continue
        rep.undecided("rejected", con, why or "%r when %s" % (bad[0][1], show(f_and(*bad[0][0].pc))))
    attempt(rep, "rejected", con, go)


def c07(prog):
    rep = Report("C07", prog, RULE07, ["Python text, set, dict and integer semantics as modelled in sa/sym.py and sa/symlib.py",
                                       "beginnings of up to four letters with one number each, in sampled orders (in all orders in the thorough tier), stand for all well-formed beginnings",
                                       "white space is neither required to be illegal nor to be ignored"])
    I = Interp(prog)
    dec = public(I, MOD, "decode")
    tried = set()
    for nsep, sep, seps in (("", ",", {}), (",", ",", {}), ("", ";", {"sep": K(";")}), (".", ";", {"sep": K(";"), "nsep": K(".")})):
        for m in malformed(nsep, sep):
            for where_, x in surroundings(m, sep):
                if where_ and seps:
                    continue
                check_malformed(I, rep, dec, x, where_, sep, seps, tried)
    rep.count("functions interpreted", len(set(I.calls)))
    return rep
