"""Transfer functions for built-in functions, methods and the standard library used by the interpreter in sym.py."""
import ast
import itertools
import string

from .logic import (CollV, F, K, StrV, T, Tup, coll_len, f_and, f_or, flat, fnot, isf, mkeq, mkeqp, mkex, mkin, mkite, mklt, vars_of,
                    nonempty, refresh, subst)
from .poly import ONE, P, Poly, Term, Var, ZERO, divmod_poly, nonneg, negative
from .logic import split_first
from . import sym as S
from .sym import (BoundV, BuiltinV, ClassV, Coll, DictRec, Exc, ExtV, FuncV, Gen, Inst, Board, MethV, NONE, ObjV, Ref, SlotRef,
                  StarV, StoreV, SuperV, Unsupported, as_concrete, dedupe, hash_ok)


# ---------------------------------------------------------------- strings
def mkstr(parts):
    v = StrV(parts)
    if all(isinstance(p, str) for p in v.parts):
        return K("".join(v.parts))
    return v


def str_parts(I, v, st):
    """str(v) as parts."""
    if isinstance(v, K):
        return [v.v if isinstance(v.v, str) else str(v.v)]
    if isinstance(v, StrV):
        return list(v.parts)
    if isinstance(v, Poly):
        if v.isconst():
            return [str(v.cval())]
        s = v.single()
        if isinstance(s, Term) and s.op in ("strval",):
            return [s]
        return [Term("str", v)]
    if isf(v):
        if v in (T, F):
            return ["True" if v == T else "False"]
        return [Term("str", v)]
    if isinstance(v, Tup):
        out = ["("]
        for i, x in enumerate(v.items):
            if i:
                out.append(", ")
            out.extend(str_parts(I, x, st))
        return out + [")"]
    if isinstance(v, Term):
        return [Term("str", v)]
    return [Term("str", v if hash_ok(v) else repr(v))]


def is_str(v):
    return isinstance(v, StrV) or isinstance(v, K) and isinstance(v.v, str)


def to_parts(v):
    return [v.v] if isinstance(v, K) else list(v.parts)


def only_digits(p):
    if isinstance(p, Term) and p.op == "char" and isinstance(p.args[0], Term):
        return only_digits(p.args[0])
    return isinstance(p, Term) and p.op == "str" and isinstance(p.args[0], Poly) and nonneg(p.args[0])


def digit_run(p):
    """[(binders, condition, digits)] of numbers written one after the other, possibly none; None: something else."""
    if not (isinstance(p, Term) and p.op == "join" and p.args[0] == K("") and isinstance(p.args[1], CollV)):
        return None
    out = []
    for o in p.args[1].ops:
        if o[0] != "+" or not isinstance(o[3], StrV) or len(o[3].parts) != 1 or not only_digits(o[3].parts[0]):
            return None
        out.append((o[1], o[2], o[3].parts[0]))
    return out


def str_contains(I, x, c, st, node):
    if isinstance(x, K) and isinstance(c, K):
        return T if x.v in c.v else F
    if isinstance(c, K) and isinstance(x, StrV) and len(x.parts) == 1 and only_digits(x.parts[0]):
        # one run of digits, handled like its characters
        if all(d in c.v for d in "0123456789"):
            return T
        if not any(d in c.v for d in "0123456789"):
            return F
    if isinstance(c, K) and isinstance(x, StrV) and len(x.parts) == 1 and isinstance(x.parts[0], Term) and x.parts[0].op == "char" and without(x.parts[0], c.v):
        return F
    if isinstance(c, StrV) and isinstance(x, K):
        text = "".join(p for p in c.parts if isinstance(p, str))
        if len(x.v) == 1 and all(isinstance(p, str) or only_digits(p) for p in c.parts):
            if x.v in text:
                return T
            if not x.v.isdigit():
                return F
        if len(x.v) == 1:
            if any(isinstance(p, str) and x.v in p for p in c.parts):
                return T
            if all(without(p, x.v) for p in c.parts):
                return F
    return ("in", x, c) if hash_ok(x) and hash_ok(c) else ("in", repr(x), repr(c))


def text(name, without=""):
    """An arbitrary text that has none of the given characters."""
    return StrV([Term("text", name, "".join(sorted(set(without))))])


def without(p, chars):
    """Does the part surely contain none of the characters?"""
    if isinstance(p, str):
        return not any(c in p for c in chars)
    if only_digits(p) or digit_run(p) is not None:
        return not any(c.isdigit() for c in chars)
    if isinstance(p, Term) and p.op == "char":
        return without(p.args[0], chars)
    return isinstance(p, Term) and p.op == "text" and len(p.args) == 2 and all(c in p.args[1] for c in chars)


def split_parts(parts, sep, most=-1):
    """Split a string of parts at a constant separator that can only lie in the constant parts."""
    out = [[]]
    before = ""
    for p in parts:
        if isinstance(p, str):
            before = p
            bits = p.split(sep, most - len(out) + 1) if most >= 0 else p.split(sep)
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        elif most >= 0 and len(out) > most:
            out[-1].append(p)
        else:
            # no separator begins in the part, and none that begins before it ends in it
            if not without(p, sep) and not (without(p, sep[:1]) and not any(before.endswith(sep[:i]) for i in range(1, len(sep)))):
                raise Unsupported("split of an unknown string")
            before = ""
            out[-1].append(p)
    # a separator spread over parts would need digits inside: impossible here
    return [mkstr(x) for x in out]


def stripped(I, ps, left, right, st, chars=None):
    """Strip white space (or the characters) off the parts; a text beside it may be empty.  None: not known."""
    off = string.whitespace if chars is None else chars
    ps = [p for p in ps if p != ""]
    for side in (0, -1):
        while ps and (left if side == 0 else right):
            p = ps[side]
            if isinstance(p, str):
                q = p.lstrip(chars) if side == 0 else p.rstrip(chars)
                if q:
                    ps[side] = q
                    break
                del ps[side]
            elif without(p, off) and (only_digits(p) or p.op == "char"):
                break
            elif without(p, off):
                q = ps[1 if side == 0 else -2] if len(ps) > 1 else "."
                if isinstance(q, str) and q.strip(chars) and not q[side if side == 0 else -1].strip(chars) == "":
                    break
                outs = []
                for s, b in I.branch(mkeq(StrV([p]), K("")), st):
                    more = stripped(I, [x for x in ps if x != p] if b else list(ps), left if b or side == -1 else False,
                                    right if b or side == 0 else False, s, chars)
                    if more is None:
                        return None
                    outs += more
                return outs
            else:
                return None
    return [(st, mkstr(ps))]


def fmt(I, s, args, st, node):
    """'%' formatting."""
    out = []
    i = 0
    if isinstance(args, Tup):
        vals = list(args.items)
    else:
        vals = [args]
    text = s.v
    pos = 0
    while pos < len(text):
        j = text.find("%", pos)
        if j < 0:
            out.append(text[pos:])
            break
        out.append(text[pos:j])
        k = j + 1
        while k < len(text) and text[k] in "0123456789.-+ #":
            k += 1
        if k >= len(text):
            return Exc("ValueError", (), node)
        c = text[k]
        if c == "%":
            out.append("%")
        else:
            if i >= len(vals):
                return Exc("TypeError", (), node)
            v = vals[i]
            i += 1
            if c == "d" and (isinstance(v, (StrV, Tup, CollV)) or isinstance(v, K)):
                return Exc("TypeError", (), node)
            if k > j + 1:
                out.append(Term("fmt", text[j:k + 1], v if hash_ok(v) else repr(v)))
            elif c == "r":
                out.append(Term("repr", v if hash_ok(v) else repr(v)))
            else:
                out.extend(str_parts(I, v, st))
        pos = k + 1
    if i < len(vals):
        return Exc("TypeError", (), node)
    return mkstr(out)


# ---------------------------------------------------------------- operators
def binop(I, op, l, r, st, node):
    if is_str(l) and is_str(r) and isinstance(op, ast.Add):
        yield st, mkstr(to_parts(l) + to_parts(r))
        return
    if isinstance(op, ast.Add) and (is_str(l) and (isinstance(r, (Poly, CollV, Tup)) and definite_nonstr(r)) or
                                    is_str(r) and (isinstance(l, (Poly, CollV, Tup)) and definite_nonstr(l))):
        yield st, Exc("TypeError", (), node)
        return
    if isinstance(op, ast.Add) and (is_str(l) or is_str(r)) and (isinstance(l, Term) or isinstance(r, Term) or isinstance(l, Poly) or isinstance(r, Poly)):
        yield st, mkstr(str_parts(I, l, st) + str_parts(I, r, st))
        return
    if isinstance(op, ast.Mod) and isinstance(l, K) and isinstance(l.v, str):
        x = fmt(I, l, r, st, node)
        yield st, x
        return
    if isinstance(op, ast.Mod) and isinstance(l, StrV):
        yield st, StrV([Term("fmt", l, r if hash_ok(r) else repr(r))])
        return
    if isinstance(op, ast.Mult):
        for a, b in ((l, r), (r, l)):
            if is_str(a) and isinstance(b, Poly):
                if isinstance(a, K) and b.isconst():
                    yield st, K(a.v * b.cval())
                else:
                    yield st, StrV([Term("strmul", a, b)])
                return
            if isinstance(b, Poly) and I.iscoll(a, st):
                c = I.coll(a, st, node)
                items = as_concrete(c)
                kind = "tuple" if isinstance(c, Tup) else c.kind
                if items is None:
                    raise Unsupported("repetition of a collection", node)
                if b.isconst() and b.cval() <= 20:
                    items = items * b.cval()
                    if kind == "tuple":
                        yield st, Tup(items)
                    else:
                        yield st, I.newcoll(st, kind, [("+", (), T, x) for x in items])
                    return
                ops = []
                for x in items:
                    v = Var("k", ZERO, b)
                    ops.append(("+", (v,), T, x))
                if len(ops) > 1:
                    raise Unsupported("repetition of a collection", node)
                yield st, (CollV("tuple", ops) if kind == "tuple" else I.newcoll(st, kind, ops))
                return
    if I.iscoll(l, st) and I.iscoll(r, st):
        a, b = I.coll(l, st, node), I.coll(r, st, node)
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                yield st, Tup(a.items + b.items)
                return
            ka, kb = getattr(a, "kind", "tuple"), getattr(b, "kind", "tuple")
            if ka != kb and "iter" not in (ka, kb) or ka in ("set", "frozenset", "gen", "range"):
                yield st, Exc("TypeError", (), node)
                return
            ops = list(ops_of(a)) + list(ops_of(b))
            yield st, (I.newcoll(st, "list", ops) if ka == "list" else CollV(ka, ops))
            return
        v = set_op({ast.BitOr: "|", ast.Sub: "-", ast.BitAnd: "&", ast.BitXor: "^"}.get(type(op)), a, b, node)
        kind = getattr(a, "kind", "set")
        if kind not in ("set", "frozenset", "iter"):
            yield st, Exc("TypeError", (), node)
            return
        yield st, (I.newcoll(st, "set", v.ops) if kind == "set" else CollV("frozenset", v.ops))
        return
    if isinstance(l, Term) or isinstance(r, Term) or isinstance(l, (Poly, StrV)) or isinstance(r, (Poly, StrV)):
        if I.iscoll(l, st):
            l = I.coll(l, st)
        if I.iscoll(r, st):
            r = I.coll(r, st)
        if hash_ok(l) and hash_ok(r):
            yield st, Term(type(op).__name__, l, r)
            return
    if isinstance(l, K) and isinstance(r, K):
        yield st, Exc("TypeError", (), node)
        return
    raise Unsupported("operator on %r and %r" % (l, r), node)


def definite_nonstr(v):
    if isinstance(v, (CollV, Tup)):
        return True
    s = v.single()
    if s is None:
        return True
    if isinstance(s, Var):
        return s.dom is None or isinstance(s.dom, tuple) and s.dom[0] == "elem" and of_numbers(s.dom[1])
    return s.op in ("num", "len", "count", "fdiv", "mod", "chosen")


def of_numbers(c):
    """A collection of candidates or numbers."""
    def one(o):
        if o[0] == "all":
            return isinstance(o[1], Term) and o[1].op == "cand" or isinstance(o[1], (CollV, Tup)) and of_numbers(o[1])
        return len(o) > 3 and isinstance(o[3], Poly) and definite_nonstr(o[3])
    if isinstance(c, Term):
        return c.op == "cand"
    return all(one(o) for o in c.ops) if isinstance(c, CollV) else isinstance(c, Tup) and all(isinstance(x, Poly) and definite_nonstr(x) for x in c.items)


def ops_of(c):
    if isinstance(c, Tup):
        return [("+", (), T, x) for x in c.items]
    return c.ops


def set_op(op, a, b, node=None):
    if op == "|":
        return CollV("set", dedupe(list(ops_of(a)) + add_ops(b)))
    if op == "-":
        out = list(ops_of(a))
        for o in add_ops(b):
            if o[0] == "+":
                out.append(("-", o[1], o[2], o[3]))
            elif o[0] == "all":
                v = Var("x", dom=("elem", o[1]))
                out.append(("-", (v,), T, P(v)))
            else:
                raise Unsupported("set difference", node)
        return CollV("set", out)
    fl = flat(a)
    if fl is None:
        raise Unsupported("set operation", node)
    if op == "&":
        return CollV("set", [("+", bs, f_and(c, mkin(e, b)), e) for bs, c, e in fl])
    if op == "^":
        fb = flat(b)
        if fb is not None:
            return CollV("set", [("+", bs, f_and(c, fnot(mkin(e, b))), e) for bs, c, e in fl] +
                         [("+", bs, f_and(c, fnot(mkin(e, a))), e) for bs, c, e in fb])
    raise Unsupported("set operator", node)


def add_ops(c):
    """Operations that add exactly the elements of c (c may itself contain removals)."""
    if all(o[0] in ("+", "all") for o in ops_of(c)):
        return list(ops_of(c))
    fl = flat(c)
    if fl is None:
        v = Var("x", dom=("elem", c))
        return [("+", (v,), T, P(v))]
    return [("+",) + tuple(f) for f in fl]


# ---------------------------------------------------------------- slices
def slice_(I, o, lo, hi, step, st, node):
    if isinstance(o, K) and isinstance(o.v, str) and all(x is None or isinstance(x, Poly) and x.isconst() for x in (lo, hi, step)):
        g = lambda x: None if x is None else x.cval()
        yield st, K(o.v[g(lo):g(hi):g(step)])
        return
    if isinstance(o, (StrV, Term)) or isinstance(o, K):
        yield st, StrV([Term("slice", o, repr(lo), repr(hi), repr(step))])
        return
    c = I.coll(o, st, node)
    items = as_concrete(c)
    if items is not None and all(x is None or isinstance(x, Poly) and x.isconst() for x in (lo, hi, step)):
        g = lambda x: None if x is None else x.cval()
        new = items[g(lo):g(hi):g(step)]
        if isinstance(c, Tup):
            yield st, Tup(new)
        else:
            yield st, I.newcoll(st, "list", [("+", (), T, x) for x in new])
        return
    if lo is None and hi is None and (step is None or step == P(-1)):
        yield st, (I.newcoll(st, "list", c.ops) if not isinstance(c, Tup) else c)
        return
    if not isinstance(c, Tup) and step is None and hi is None and isinstance(lo, Poly) and lo.isconst() and lo.cval() >= 0:
        k = lo.cval()
        if len(c.ops) >= k and all(op[0] == "+" and not op[1] and op[2] is T for op in c.ops[:k]):
            yield st, I.newcoll(st, "list", c.ops[k:])
            return
    if step is None or step == ONE:
        span = plain_range(c)
        if span is not None:
            v, a, b, e = span
            ends = []
            for x, d in ((lo, a), (hi, b)):
                if x is None:
                    ends.append(d)
                elif isinstance(x, Poly) and nonneg(x) and (nonneg(b - a - x) or x is lo):
                    ends.append(a + x)
                elif isinstance(x, Poly) and nonneg(-x - 1) and (nonneg(b - a + x) or x is hi):
                    ends.append(b + x)
                else:
                    raise Unsupported("slice", node)
            w = Var(v.name, ends[0], ends[1])
            yield st, I.newcoll(st, "list" if c.kind not in ("tuple", "range") else c.kind, [("+", (w,), T, subst(e, {v: P(w)}))])
            return
        at = position(c)
        if at is not None and all(x is None or isinstance(x, Poly) and nonneg(x) for x in (lo, hi)):
            _, bs, cond, e = c.ops[0]
            keep = [cond] + [mklt(at - hi)] * (hi is not None) + [fnot(mklt(at - lo))] * (lo is not None)
            yield st, I.newcoll(st, "list" if c.kind not in ("tuple", "range") else c.kind, [("+", bs, f_and(*keep), e)])
            return
    raise Unsupported("slice", node)


def position(c):
    """Position of an element in a sequence of elements for all values of some variables, in terms of the variables."""
    if not isinstance(c, CollV) or c.kind not in ("list", "tuple", "range") or len(c.ops) != 1 or c.ops[0][0] != "+" or not c.ops[0][1] or c.ops[0][2] != T:
        return None
    bs, at = c.ops[0][1], ZERO
    for v in bs:
        if v.dom is not None or v.lo is None or v.hi is None or v.parent is not None or set(bs) & (set(vars_of(v.lo)) | set(vars_of(v.hi))):
            return None
        at = at * (v.hi - v.lo) + (P(v) - v.lo)
    return at


def plain_range(c):
    """(variable, start, end, element) of a sequence with one element for each value of a variable, in order."""
    if isinstance(c, CollV) and c.kind in ("list", "tuple", "range") and len(c.ops) == 1 and c.ops[0][0] == "+" and len(c.ops[0][1]) == 1 and c.ops[0][2] == T:
        v = c.ops[0][1][0]
        if v.dom is None and v.lo is not None and v.hi is not None and v.parent is None:
            return v, v.lo, v.hi, c.ops[0][3]
    return None


# ---------------------------------------------------------------- builtins
def builtin(I, name, args, kwargs, st, node, fr=None):
    f = BUILTINS.get(name)
    if f is None:
        if name in S.EXC_BASES:
            yield st, Term("exc", name, *[a for a in args if hash_ok(a)])
            return
        raise Unsupported("built-in %s" % name, node)
    yield from f(I, args, kwargs, st, node, fr)


def each(I, v, st, node):
    """Outcomes of iterating v."""
    yield from I.iterate(v, st, node)


def b_range(I, args, kw, st, node, fr):
    if not all(isinstance(a, Poly) for a in args):
        if any(isinstance(a, K) for a in args) or any(isf(a) for a in args):
            yield st, Exc("TypeError", (), node)
            return
        yield st, CollV("range", [("all", Term("range", *args))])
        return
    if len(args) == 1:
        lo, hi = ZERO, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        if all(a.isconst() for a in args):
            yield st, CollV("range", [("+", (), T, P(i)) for i in range(*[a.cval() for a in args])])
            return
        lo, hi, stp = args
        if nonneg(stp - 1) and stp.m and len(stp.m) == 1:
            from .poly import divides
            n = divides(hi - lo, stp)
            if n is not None:
                v = Var("i", ZERO, n)
                yield st, CollV("range", [("+", (v,), T, lo + stp * P(v))])
                return
            n, _r = divmod_poly(hi - lo + stp - 1, stp)
            if not any(isinstance(a, Term) for a in n.atoms()):
                v = Var("i", ZERO, n)
                yield st, CollV("range", [("+", (v,), T, lo + stp * P(v))])
                return
        raise Unsupported("range with step", node)
    if lo.isconst() and hi.isconst() and hi.cval() - lo.cval() <= 16:
        yield st, CollV("range", [("+", (), T, P(i)) for i in range(lo.cval(), hi.cval())])
        return
    v = Var("i", lo, hi)
    yield st, CollV("range", [("+", (v,), T, P(v))])


def conv(kind):
    def go(I, args, kw, st, node, fr):
        if not args:
            yield st, (Tup([]) if kind == "tuple" else CollV("frozenset", []) if kind == "frozenset" else I.newcoll(st, kind))
            return
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            if isinstance(c, Tup):
                if kind == "tuple":
                    yield s, Tup(c.items)
                    continue
                ops = [("+", (), T, x) for x in c.items]
            else:
                items = as_concrete(c)
                if items is not None and c.kind in ("set", "frozenset") and kind in ("list", "tuple"):
                    items = all_different(I, items, s)
                if kind == "tuple" and items is not None:
                    yield s, Tup(items)
                    continue
                ops = list(c.ops) if items is None else [("+", (), T, x) for x in items]
                if items is None and c.kind in ("set", "frozenset") and kind in ("list", "tuple") and (len(ops) > 1 or ops and ops[0][1]):
                    # the order and the number of duplicates of a set's operations are not those of a list
                    if not (len(ops) == 1 and ops[0][0] in ("all", "+")):
                        ops = [("all", CollV("frozenset", ops))]
            if kind in ("set", "frozenset"):
                ops = dedupe([("-", ) + tuple(o[1:]) if o[0] == "-1" else o for o in ops]) if not any(o[0] == "-1" for o in ops) else \
                    set_from_list(I, c)
            if kind in ("tuple", "frozenset"):
                yield s, CollV(kind, ops)
            else:
                yield s, I.newcoll(s, kind, ops)
    return go


def all_different(I, items, st):
    """The different ones among concrete elements; None if they may or may not be equal."""
    out = []
    for x in items:
        if x in out:
            continue
        if any(I.decide(mkeq(x, y), st) is not False for y in out):
            return None
        out.append(x)
    return out


def set_from_list(I, c):
    fl = flat(c)
    if fl is None:
        return [("all", c)]
    return [("+",) + tuple(f) for f in fl]


def b_len(I, args, kw, st, node, fr):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.rec(st, v), (Inst, Board)):
        r = I.rec(st, v)
        m = r.cls.find("__len__")
        if m is None:
            yield st, Exc("TypeError", (), node)
            return
        yield from I.call(BoundV(m, v), [], {}, st, node)
        return
    if isinstance(v, Ref) and isinstance(I.rec(st, v), Gen):
        yield st, Exc("TypeError", (), node)
        return
    if isinstance(v, K) and isinstance(v.v, str):
        yield st, P(len(v.v))
        return
    if isinstance(v, StrV):
        if all(isinstance(p, str) or only_digits(p) and I.decide(mklt(p.args[0] - 10), st) is True for p in v.parts):
            yield st, P(sum(len(p) if isinstance(p, str) else 1 for p in v.parts))
            return
        yield st, P(Term("len", v))
        return
    if isinstance(v, (Poly, K)) or isf(v):
        if isinstance(v, Poly) and not definite_nonstr(v):
            yield st, P(Term("len", v.single()))
            return
        yield st, Exc("TypeError", (), node)
        return
    yield st, coll_len(I.coll(v, st, node))


def b_str(I, args, kw, st, node, fr):
    if not args:
        yield st, K("")
        return
    v = args[0]
    if isinstance(v, Ref):
        r = I.rec(st, v)
        if isinstance(r, (Inst, Board)):
            yield st, StrV([Term("str", v)])
            return
    yield st, mkstr(str_parts(I, v, st))


def b_int(I, args, kw, st, node, fr):
    v = args[0] if args else ZERO
    base = args[1] if len(args) > 1 else kw.get("base")
    if base is not None and base != P(10):
        if isinstance(v, K) and isinstance(v.v, str) and isinstance(base, Poly) and base.isconst():
            try:
                yield st, P(int(v.v, base.cval()))
            except ValueError:
                yield st, Exc("ValueError", (), node)
            return
        raise Unsupported("int() with a base", node)
    if isinstance(v, Poly):
        s = v.single()
        if isinstance(s, (Term,)) and s.op not in S.INT_OPS or isinstance(s, Var) and s.dom is not None:
            yield st, P(Term("int", v))
            yield st.fork(("int-fails", v)), Exc("ValueError", (), node)
            return
        yield st, v
        return
    if isinstance(v, StrV):
        if len(v.parts) == 1 and isinstance(v.parts[0], Term) and v.parts[0].op == "str" and isinstance(v.parts[0].args[0], Poly):
            yield st, v.parts[0].args[0]
            return
        if all(isinstance(p, Term) and p.op == "char" and only_digits(p) for p in v.parts):
            yield st, P(Term("int", v))
            return
        yield st, P(Term("int", v))
        yield st.fork(("int-fails", v)), Exc("ValueError", (), node)
        return
    if isinstance(v, K):
        try:
            yield st, P(int(v.v))
        except ValueError:
            yield st, Exc("ValueError", (), node)
        except TypeError:
            yield st, Exc("TypeError", (), node)
        return
    if isf(v):
        yield st, mkite(v, ONE, ZERO)
        return
    if isinstance(v, Term):
        yield st, P(Term("int", v))
        yield st.fork(("int-fails", v)), Exc("ValueError", (), node)
        return
    yield st, Exc("TypeError", (), node)


def b_bool(I, args, kw, st, node, fr):
    yield st, (I.truth(args[0], st, node) if args else F)


def quant(isany):
    def go(I, args, kw, st, node, fr):
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            fs = []
            for bs, cond, el in I.items_of(c, s, node):
                t = I.truth(el, s, node)
                g = f_and(cond, t if isany else fnot(t))
                fs.append(mkex(*refresh(bs, g)))
            f = f_or(*fs)
            yield s, (f if isany else fnot(f))
    return go


def b_sum(I, args, kw, st, node, fr):
    for s, c in each(I, args[0], st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        start = args[1] if len(args) > 1 else ZERO
        items = as_concrete(c)
        if items is not None and all(isinstance(x, Poly) for x in items):
            for x in items:
                start = start + x
            yield s, start
            continue
        # sum of ones is a count
        if all(isinstance(o[0], str) and o[0] == "+" and isinstance(o[3], Poly) and o[3].isconst() for o in c.ops):
            n = start
            for o in c.ops:
                n = n + o[3].cval() * I.count_term(o[1], o[2])
            yield s, n
            continue
        yield s, start + P(Term("sum", c))


def minmax(which):
    def go(I, args, kw, st, node, fr):
        if len(args) > 1:
            if all(isinstance(a, Poly) for a in args) and len(args) == 2:
                a, b = args
                f = mklt(a - b)
                r = I.decide(f, st)
                lo, hi = (a, b) if r is True else (b, a)
                if r is not None:
                    yield st, (lo if which == "min" else hi)
                else:
                    yield st, mkite(f, a, b) if which == "min" else mkite(f, b, a)
                return
            yield st, P(Term(which, *args))
            return
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            ne = nonempty(c)
            for s2, b in I.branch(ne, s):
                if not b:
                    if "default" in kw:
                        yield s2, kw["default"]
                    else:
                        yield s2, Exc("ValueError", (), node)
                    continue
                items = as_concrete(c)
                if items is not None and len(items) == 1:
                    yield s2, items[0]
                elif items is not None and all(isinstance(x, Poly) and x.isconst() for x in items) and "key" not in kw:
                    yield s2, P((min if which == "min" else max)(x.cval() for x in items))
                else:
                    kf = kw.get("key")
                    if items is not None and kf is not None:
                        got = least_of(I, items, kf, s2, node, which)
                        if got is not None:
                            yield s2, got
                            continue
                    yield s2, P(Term(which, c, kf if hash_ok(kf) else repr(kf)))
    return go


def key_values(I, items, kf, st, node):
    """The values of a key function that are constants for all concrete items; None if they are not."""
    keys = []
    for x in items:
        try:
            outs = list(I.call(kf, [x], {}, st.fork(), node))
        except Unsupported:
            return None
        if len(outs) != 1 or not isinstance(outs[0][1], Poly) or not outs[0][1].isconst():
            return None
        keys.append(outs[0][1].cval())
    return keys


def least_of(I, items, kf, st, node, which):
    """The first least (greatest) of concrete items by a key that is a constant for each; None if it is not."""
    keys = key_values(I, items, kf, st, node)
    return None if keys is None else items[keys.index((min if which == "min" else max)(keys))]


def settle(I, c, st):
    """[(state, collection)]: a set of a few values that can be equal, as the sets of different values it can be."""
    if not isinstance(c, CollV) or c.kind not in ("set", "frozenset") or not 2 <= len(c.ops) <= 12 or any(o[0] not in "+-" or o[1] for o in c.ops):
        return [(st, c)]
    if all(isinstance(o[3], K) and o[2] == T and o[0] == "+" for o in c.ops):
        return [(st, c)]
    out = [(st, [])]
    for o in c.ops:
        nxt = []
        for s, have in out:
            for s2, b in I.branch(o[2], s):
                if not b:
                    nxt.append((s2, have))
                    continue
                for s3, i in which_equal(I, o[3], have, s2):
                    if o[0] == "-":
                        nxt.append((s3, have if i is None else have[:i] + have[i + 1:]))
                    else:
                        nxt.append((s3, have + [o[3]] if i is None else have))
        out = nxt
        if len(c.ops) > 4 and len(out) > 1:             # of many values only sets that are known
            return [(st, c)]
    return [(s, CollV(c.kind, [("+", (), T, x) for x in have])) for s, have in out]


def which_equal(I, x, have, st):
    """[(state, index of the value equal to x, or None)]"""
    out, todo = [], [st]
    for i, h in enumerate(have):
        rest = []
        for t in todo:
            for t2, same in I.branch(mkeq(h, x), t):
                if same:
                    out.append((t2, i))
                else:
                    rest.append(t2)
        todo = rest
    return out + [(t, None) for t in todo]


def less(a, b):
    """The condition under which a is before b; None: not known."""
    if isinstance(a, Tup) and isinstance(b, Tup):
        f, same = F, T
        for x, y in zip(a.items, b.items):
            g = less(x, y)
            if g is None:
                return None
            f, same = f_or(f, f_and(same, g)), f_and(same, mkeq(x, y))
        return f_or(f, same) if len(a.items) < len(b.items) else f
    if isinstance(a, Poly) and isinstance(b, Poly) and not any(isinstance(x.single(), (Term, Var)) and not definite_nonstr(x) for x in (a, b)):
        return mklt(a - b)
    return None


def in_order(I, items, st):
    """[(state, items in order)] for a few comparable values; None: not known."""
    if len(items) > 12 or any(less(a, b) is None for a in items for b in items):
        return None
    out = [(st, [])]
    for x in items:
        nxt = []
        for s, have in out:
            todo = [s]
            for i in range(len(have), 0, -1):                # from behind: equal values keep their order
                rest = []
                for t in todo:
                    for t2, b in I.branch(less(x, have[i - 1]), t):
                        if b:
                            rest.append(t2)
                        else:
                            nxt.append((t2, have[:i] + [x] + have[i:]))
                todo = rest
            nxt.extend((t, [x] + have) for t in todo)
        out = nxt
        if len(items) > 3 and len(out) > 1:             # of many values only orders that are known
            return None
    return out


def b_sorted(I, args, kw, st, node, fr):
    for s, c in [x for s0, c0 in each(I, args[0], st, node) for x in ([(s0, c0)] if isinstance(c0, Exc) else settle(I, c0, s0))]:
        if isinstance(c, Exc):
            yield s, c
            continue
        items = as_concrete(c)
        if items is not None:
            if len(items) <= 1:
                yield s, I.newcoll(s, "list", [("+", (), T, x) for x in items])
                continue
            if "key" not in kw and all(isinstance(x, K) for x in items):
                try:
                    items = sorted(items, key=lambda x: x.v)
                    yield s, I.newcoll(s, "list", [("+", (), T, x) for x in items])
                    continue
                except TypeError:
                    pass
            if "key" not in kw and all(isinstance(x, Poly) and x.isconst() for x in items):
                items = sorted(items, key=lambda x: x.cval())
                yield s, I.newcoll(s, "list", [("+", (), T, x) for x in items])
                continue
            ordered = in_order(I, items, s) if not kw else None
            if ordered is not None:
                for s2, xs in ordered:
                    yield s2, I.newcoll(s2, "list", [("+", (), T, x) for x in xs])
                continue
            keys = key_values(I, items, kw.get("key"), s, node) if set(kw) == {"key"} else None
            if keys is not None:
                items = [x for _k, x in sorted(zip(keys, items), key=lambda e: e[0])]
                yield s, I.newcoll(s, "list", [("+", (), T, x) for x in items])
                continue
            yield s, I.newcoll(s, "list", [("all", c)] if len(items) > 1 else c.ops)
            continue
        ops = list(c.ops)
        if c.kind in ("set", "frozenset") and not (len(ops) == 1 and ops[0][0] in ("all", "+")):
            ops = [("all", c)]
        yield s, I.newcoll(s, "list", ops)


def b_reversed(I, args, kw, st, node, fr):
    c = I.coll(args[0], st, node)
    items = as_concrete(c)
    if items is not None:
        yield st, CollV("gen", [("+", (), T, x) for x in reversed(items)])
    else:
        yield st, CollV("gen", list(reversed(c.ops)) if all(o[0] == "+" for o in c.ops) else [("all", c)])


def b_enumerate(I, args, kw, st, node, fr):
    for s, c in each(I, args[0], st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        items = as_concrete(c)
        if items is not None:
            yield s, CollV("gen", [("+", (), T, Tup([start + i, x])) for i, x in enumerate(items)])
            continue
        if len(c.ops) == 1 and c.ops[0][0] == "+" and c.ops[0][2] == T and len(c.ops[0][1]) == 1 and c.ops[0][1][0].lo is not None \
                and c.ops[0][1][0].dom is None:
            b, = c.ops[0][1]
            yield s, CollV("gen", [("+", (b,), T, Tup([start + P(b) - b.lo, c.ops[0][3]]))])
            continue
        n = S.Var("n", start, None)
        fl = I.items_of(c, s, node)
        yield s, CollV("gen", [("+", bs + (n,), f_and(cond, ("index", n, el)), Tup([P(n), el])) for bs, cond, el in fl])


def b_zip(I, args, kw, st, node, fr):
    cs = []
    for a in args:
        outs = list(each(I, a, st, node))
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("zip", node)
        st = outs[0][0]
        cs.append(outs[0][1])
    its = [as_concrete(c) for c in cs]
    if all(i is not None for i in its):
        yield st, CollV("gen", [("+", (), T, Tup(x)) for x in zip(*its)])
        return
    raise Unsupported("zip of unknown collections", node)


def b_map(I, args, kw, st, node, fr):
    f, src = args[0], args[1]
    for s, c in each(I, src, st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        yield from map_coll(I, f, c, s, node, fr)


def map_coll(I, f, c, st, node, fr, star=False):
    items = I.items_of(c, st, node)
    ops = []
    for bs, cond, el in items:
        bs, cond, el = refresh(bs, cond, el)
        s0 = st.fork(cond)
        outs = [o for o in I.call(f, [el], {}, s0, node, fr)]
        for s1, v in outs:
            if isinstance(v, Exc):
                if bs or cond != T or len(outs) > 1:
                    raise Unsupported("map with exceptions", node)
                yield s1, v
                return
            pc = f_and(*[g for g in s1.pc if g not in s0.pc])
            for k, r in s1.heap.items():
                if k in st.heap and st.heap[k] is not r:
                    raise Unsupported("map with side effects", node)
                st.heap.setdefault(k, r)
            ops.append(("+", bs, f_and(cond, pc), I.freeze(v, s1, 0) if bs and isinstance(v, Ref) else v))
    yield st, CollV("gen", ops)


def b_filter(I, args, kw, st, node, fr):
    f, src = args[0], args[1]
    for s, c in each(I, src, st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        ops = []
        for bs, cond, el in I.items_of(c, s, node):
            bs, cond, el = refresh(bs, cond, el)
            if f == NONE:
                ops.append(("+", bs, f_and(cond, I.truth(el, s, node)), el))
                continue
            outs = list(I.call(f, [el], {}, s.fork(cond), node, fr))
            for s1, v in outs:
                if isinstance(v, Exc):
                    raise Unsupported("filter with exceptions", node)
                pc = f_and(*[g for g in s1.pc if g not in s.pc])
                ops.append(("+", bs, f_and(cond, pc, I.truth(v, s1, node)), el))
        yield s, CollV("gen", ops)


def b_next(I, args, kw, st, node, fr):
    it = args[0]
    if isinstance(it, Ref):
        r = I.rec(st, it)
        if isinstance(r, Gen):
            if r.coll is None:
                for s, c, exc in I.gen_body(it, st, node):
                    s.heap[it.id] = Gen(r.func, r.env, c, 0)
                    if exc is not None and as_concrete(c) == []:
                        yield s, exc
                        continue
                    yield from b_next(I, args, kw, s, node, fr)
                return
            items = as_concrete(r.coll)
            if items is not None:
                if r.pos < len(items):
                    st.heap[it.id] = Gen(r.func, r.env, r.coll, r.pos + 1)
                    yield st, items[r.pos]
                elif len(args) > 1:
                    yield st, args[1]
                else:
                    yield st, Exc("StopIteration", (), node)
                return
            for s, b in I.branch(nonempty(r.coll), st):
                if not b:
                    yield s, (args[1] if len(args) > 1 else Exc("StopIteration", (), node))
                    continue
                v = I.skolem(r.coll, s, "next")
                s.heap[it.id] = Gen(r.func, r.env, CollV("gen", [("all", Term("rest", r.coll))]), 0)
                yield s, v
            return
        if isinstance(r, Coll):
            yield st, Exc("TypeError", (), node)
            return
    if isinstance(it, CollV):
        if it.kind not in ("gen", "iter"):
            yield st, Exc("TypeError", (), node)
            return
        # a fresh generator expression consumed once
        for s, b in I.branch(nonempty(it), st):
            if not b:
                yield s, (args[1] if len(args) > 1 else Exc("StopIteration", (), node))
            else:
                items = as_concrete(it)
                yield s, (items[0] if items else I.skolem(it, s, "next"))
        return
    raise Unsupported("next()", node)


def b_iter(I, args, kw, st, node, fr):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.rec(st, v), Gen):
        yield st, v
        return
    for s, c in each(I, v, st, node):
        if isinstance(c, Exc):
            yield s, c
        else:
            yield s, I.new(s, Gen(None, {}, c if isinstance(c, CollV) else CollV("gen", ops_of(c)), 0))


def b_isinstance(I, args, kw, st, node, fr):
    v, c = args
    cs = list(c.items) if isinstance(c, Tup) else [c]
    res = []
    for k in cs:
        res.append(isinst(I, v, k, st))
    if any(r is True for r in res):
        yield st, T
    elif all(r is False for r in res):
        yield st, F
    else:
        yield st, ("isinstance", v if hash_ok(v) else repr(v), repr(c))


def isinst(I, v, k, st):
    if isinstance(v, Ref):
        r = I.rec(st, v)
        if isinstance(k, ClassV):
            return isinstance(r, (Inst, Board)) and k in r.cls.mro()
        if isinstance(k, BuiltinV):
            if isinstance(r, Coll):
                return k.name == r.kind or k.name == "object"
            if isinstance(r, DictRec):
                return k.name in ("dict", "object")
            return k.name == "object"
        return False
    if isinstance(v, Tup):
        return isinstance(k, BuiltinV) and k.name == "tuple" or isinstance(k, ClassV) and v.cls is not None and k in v.cls.mro()
    if is_str(v):
        return isinstance(k, BuiltinV) and k.name == "str"
    if isf(v):
        return isinstance(k, BuiltinV) and k.name in ("bool", "int")
    if isinstance(v, Poly) and definite_nonstr(v):
        return isinstance(k, BuiltinV) and k.name == "int"
    if isinstance(v, K):
        return isinstance(k, BuiltinV) and k.name == type(v.v).__name__
    if isinstance(v, CollV):
        return isinstance(k, BuiltinV) and k.name == v.kind
    if isinstance(v, ClassV):
        return isinstance(k, BuiltinV) and k.name in ("type", "object")
    if isinstance(v, (FuncV, BoundV)):
        return False
    return None


def b_issubclass(I, args, kw, st, node, fr):
    v, c = args
    cs = list(c.items) if isinstance(c, Tup) else [c]
    if isinstance(v, ClassV) and all(isinstance(k, (ClassV, BuiltinV)) for k in cs):
        yield st, (T if any(k in v.mro() or isinstance(k, BuiltinV) and k.name == "object" for k in cs) else F)
        return
    raise Unsupported("issubclass", node)


def b_type(I, args, kw, st, node, fr):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.rec(st, v), (Inst, Board)):
            yield st, I.rec(st, v).cls
            return
        if isinstance(v, ObjV):
            yield st, v.cls
            return
        if isinstance(v, Tup) and v.cls is not None:
            yield st, v.cls
            return
        yield st, Term("type", v if hash_ok(v) else repr(v))
        return
    name, bases, d = args
    attrs = {}
    if isinstance(d, Ref) and isinstance(I.rec(st, d), DictRec):
        for o in I.rec(st, d).ops:
            if o[0] != "set" or o[1] or not isinstance(o[3], K):
                raise Unsupported("type()", node)
            attrs[o[3].v] = o[4]
    bs = list(I.coll(bases, st, node).items) if isinstance(I.coll(bases, st, node), Tup) else as_concrete(I.coll(bases, st, node))
    if not isinstance(name, K):
        raise Unsupported("type()", node)
    yield st, ClassV(name.v, fr.mod if fr else None, bs, attrs)


def b_dict(I, args, kw, st, node, fr):
    ops = []
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.rec(st, v), DictRec):
            no_shared(I.rec(st, v), node)
            ops = list(I.rec(st, v).ops)
        else:
            for s, c in each(I, v, st, node):
                if isinstance(c, Exc):
                    yield s, c
                    return
                st = s
                for bs, cond, el in I.items_of(c, s, node):
                    if isinstance(el, Tup) and len(el.items) == 2:
                        ops.append(("set", bs, cond, el.items[0], el.items[1]))
                    else:
                        raise Unsupported("dict()", node)
    for k, v in kw.items():
        ops.append(("set", (), T, K(k), v))
    yield st, I.new(st, DictRec(ops))


def b_getattr(I, args, kw, st, node, fr):
    if isinstance(args[1], K):
        for s, v in I.getattr(args[0], I.mangle(args[1].v, None), st, node):
            if isinstance(v, Exc) and v.name == "AttributeError" and len(args) > 2:
                yield s, args[2]
            else:
                yield s, v
        return
    raise Unsupported("getattr", node)


def b_hasattr(I, args, kw, st, node, fr):
    if isinstance(args[1], K):
        for s, v in I.getattr(args[0], args[1].v, st.fork(), node):
            yield st, (F if isinstance(v, Exc) else T)
            return
    raise Unsupported("hasattr", node)


def b_abs(I, args, kw, st, node, fr):
    v = args[0]
    if isinstance(v, Poly):
        if nonneg(v):
            yield st, v
        elif nonneg(-v):
            yield st, -v
        else:
            for s, b in I.branch(mklt(v), st):
                yield s, (-v if b else v)
        return
    raise Unsupported("abs", node)


def b_divmod(I, args, kw, st, node, fr):
    from .poly import divmod_poly
    if all(isinstance(a, Poly) for a in args):
        q, r = divmod_poly(args[0], args[1])
        yield st, Tup([q, r])
        return
    raise Unsupported("divmod", node)


def b_print(I, args, kw, st, node, fr):
    st.ev = st.ev + (("print", tuple(args), dict(kw), node),)
    yield st, NONE


def b_repr(I, args, kw, st, node, fr):
    yield st, StrV([Term("repr", args[0] if hash_ok(args[0]) else repr(args[0]))])


def b_callable(I, args, kw, st, node, fr):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV)):
        yield st, T
    else:
        yield st, ("callable", v if hash_ok(v) else repr(v))


def b_object(I, args, kw, st, node, fr):
    yield st, Term("object", next(S._ids))


def b_ord(I, args, kw, st, node, fr):
    yield st, P(Term("ord", args[0]))


BUILTINS = {
    "range": b_range, "list": conv("list"), "tuple": conv("tuple"), "set": conv("set"), "frozenset": conv("frozenset"),
    "len": b_len, "str": b_str, "int": b_int, "bool": b_bool, "any": quant(True), "all": quant(False), "sum": b_sum,
    "min": minmax("min"), "max": minmax("max"), "sorted": b_sorted, "reversed": b_reversed, "enumerate": b_enumerate,
    "zip": b_zip, "map": b_map, "filter": b_filter, "next": b_next, "iter": b_iter, "isinstance": b_isinstance,
    "issubclass": b_issubclass, "type": b_type, "dict": b_dict, "getattr": b_getattr, "hasattr": b_hasattr, "abs": b_abs,
    "divmod": b_divmod, "print": b_print, "repr": b_repr, "callable": b_callable, "object": b_object, "ord": b_ord,
}


# ---------------------------------------------------------------- external
def external(I, name, args, kwargs, st, node):
    if name in EXTERNAL:
        yield from EXTERNAL[name](I, args, kwargs, st, node)
        return
    if "external" in I.stubs:
        yield from I.stubs["external"](I, name, args, kwargs, st, node)
        return
    raise Unsupported("external %s" % name, node)


def x_product(I, args, kw, st, node):
    rep = kw.get("repeat", ONE)
    if not rep.isconst():
        raise Unsupported("product repeat", node)
    srcs = list(args) * rep.cval()
    fams = [((), T, [])]
    for a in srcs:
        outs = list(I.iterate(a, st, node))
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("product", node)
        st, c = outs[0]
        new = []
        for bs, cond, els in fams:
            for it in I.items_of(c, st, node):
                b2, c2, e2 = refresh(*it)
                new.append((bs + b2, f_and(cond, c2), els + [e2]))
        fams = new
    yield st, CollV("gen", [("+", bs, cond, Tup(els)) for bs, cond, els in fams])


def x_combinations(I, args, kw, st, node):
    for s, c in I.iterate(args[0], st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        n = args[1]
        if I.explicit and n.isconst() and 0 < n.cval() <= 6:
            yield s, CollV("gen", chosen(I, c, n.cval(), s, node))
            continue
        v = Var("comb", dom=("comb", c, n))
        yield s, CollV("gen", [("+", (v,), T, P(v))])


def chosen(I, c, n, st, node):
    """The combinations of n elements of a collection, as families: elements at n different positions, in order."""
    items = I.items_of(c, st, node)
    unordered = isinstance(c, CollV) and c.kind in ("set", "frozenset")
    out = []
    for pick in itertools.combinations_with_replacement(range(len(items)), n):
        bs, cond, els, taken = (), T, [], []
        for k in pick:
            b, g, e = items[k]
            g, once = split_first(g)
            if once or any(x.dom is not None for x in b) and not unordered:
                raise Unsupported("combinations of these elements", node)
            b, g, e = refresh(b, g, e)
            for k2, b2, e2 in taken:
                if k2 != k or any(x.dom is not None for x in b):
                    g = f_and(g, fnot(mkeq(e2, e))) if unordered else g
                else:                                # an earlier element of the same family: smaller, position by position
                    g = f_and(g, f_or(*[f_and(*([mkeq(P(x), P(y)) for x, y in zip(b2[:i], b[:i])] + [mklt(P(b2[i]) - P(b[i]))])) for i in range(len(b))]))
            bs, cond = bs + b, f_and(cond, g)
            taken.append((k, b, e))
            els.append(e)
        if cond != F:
            out.append(("+", bs, cond, Tup(els)))
    return out


def x_islice(I, args, kw, st, node):
    n = args[1] if len(args) == 2 else None
    if n is None or not isinstance(n, Poly) or not n.isconst():
        raise Unsupported("islice", node)
    n = n.cval()
    if isinstance(args[0], Ref) and isinstance(I.rec(st, args[0]), Gen):
        r = I.rec(st, args[0])
        if r.coll is None:
            raise Unsupported("islice of a running generator", node)
        items = as_concrete(r.coll)
        if items is None:
            raise Unsupported("islice", node)
        got = items[r.pos:r.pos + n]
        st.heap[args[0].id] = Gen(r.func, r.env, r.coll, r.pos + len(got))
        yield st, CollV("gen", [("+", (), T, x) for x in got])
        return
    for s, c in I.iterate(args[0], st, node):
        if isinstance(c, Exc):
            yield s, c
            continue
        items = as_concrete(c)
        if items is None:
            raise Unsupported("islice", node)
        yield s, CollV("gen", [("+", (), T, x) for x in items[:n]])


def x_chain(I, args, kw, st, node):
    ops = []
    for a in args:
        outs = list(I.iterate(a, st, node))
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("chain", node)
        st, c = outs[0]
        ops.extend(add_ops(c))
    yield st, CollV("gen", ops)


def x_chain_from(I, args, kw, st, node):
    outs = list(I.iterate(args[0], st, node))
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported("chain", node)
    st, c = outs[0]
    ops = []
    for bs, cond, el in I.items_of(c, st, node):
        for s, cc in I.iterate(el, st, node):
            if s is not st or isinstance(cc, Exc):
                raise Unsupported("chain", node)
            for b2, c2, e2 in I.items_of(cc, st, node):
                ops.append(("+", bs + b2, f_and(cond, c2), e2))
    yield st, CollV("gen", ops)


def x_defaultdict(I, args, kw, st, node):
    d = None
    if args and args[0] != NONE:
        f = args[0]
        if isinstance(f, BuiltinV):
            d = f.name
        elif isinstance(f, FuncV):
            s = st.fork()
            outs = list(I.call_func(f, [], {}, s, node))
            if len(outs) == 1:
                v = outs[0][1]
                if isinstance(v, Ref):
                    r = I.rec(outs[0][0], v)
                    if isinstance(r, Coll) and not r.ops:
                        d = r.kind
                elif v == ZERO:
                    d = "int"
        if d not in ("set", "list", "int"):
            raise Unsupported("default factory", node)
    if len(args) > 1:
        raise Unsupported("defaultdict", node)
    yield st, I.new(st, DictRec((), d))


def x_namedtuple(I, args, kw, st, node):
    fs = I.coll(args[1], st, node)
    items = as_concrete(fs) if not (isinstance(args[1], K)) else None
    if isinstance(args[1], K):
        items = [K(x) for x in args[1].v.replace(",", " ").split()]
    yield st, ClassV(args[0].v, None, [BuiltinV("tuple")], fields=[x.v for x in items])


def x_partial(I, args, kw, st, node):
    raise Unsupported("partial", node)


def x_exit(I, args, kw, st, node):
    yield st, Exc("SystemExit", tuple(args), node)


def literal(I, v, st):
    """Abstract value of a Python literal."""
    if v is None or isinstance(v, (str, float, bytes, complex)) or v is Ellipsis:
        return K(v)
    if isinstance(v, bool):
        return T if v else F
    if isinstance(v, int):
        return P(v)
    if isinstance(v, tuple):
        return Tup([literal(I, x, st) for x in v])
    if isinstance(v, (list, set, frozenset)):
        kind = "list" if isinstance(v, list) else "set"
        return I.newcoll(st, kind, [("+", (), T, literal(I, x, st)) for x in (v if kind == "list" else sorted(v, key=repr))])
    if isinstance(v, dict):
        return I.new(st, DictRec([("set", (), T, literal(I, k, st), literal(I, x, st)) for k, x in v.items()]))
    raise Unsupported("literal")


LITERAL_FAILS = ("SyntaxError", "ValueError", "TypeError", "MemoryError", "RecursionError")


def x_literal_eval(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, K) and isinstance(v.v, str):
        try:
            r = ast.literal_eval(v.v)
        except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError) as e:
            yield st, Exc(e.__class__.__name__, (), node)
            return
        yield st, literal(I, r, st)
        return
    yield st.fork(), P(Term("literal", v))
    for n in LITERAL_FAILS:
        yield st.fork(("literal-fails", n, v)), Exc(n, (), node)


ARGSPEC = None


def x_getfullargspec(I, args, kw, st, node):
    global ARGSPEC
    f = args[0]
    if isinstance(f, ClassV):
        f = f.find("__init__")
    g = f.func if isinstance(f, BoundV) else f
    if not isinstance(g, FuncV):
        raise Unsupported("signature of %r" % (f,), node)
    if ARGSPEC is None:
        ARGSPEC = ClassV("FullArgSpec", "inspect", fields=["args", "varargs", "varkw", "defaults", "kwonlyargs", "kwonlydefaults", "annotations"])
    a = g.node.args
    names = I.newcoll(st, "list", [("+", (), T, K(p.arg)) for p in a.posonlyargs + a.args])
    yield st, Tup([names, K(a.vararg.arg) if a.vararg else NONE, K(a.kwarg.arg) if a.kwarg else NONE,
                   Tup(list(g.defaults)) if g.defaults else NONE,
                   I.newcoll(st, "list", [("+", (), T, K(p.arg)) for p in a.kwonlyargs]), NONE, NONE], ARGSPEC)


def x_kind(test):
    def go(I, args, kw, st, node):
        v = args[0]
        if isinstance(v, (ClassV, FuncV, BoundV)):
            yield st, (T if test(v) else F)
            return
        raise Unsupported("inspect", node)
    return go


def x_text(I, args, kw, st, node):
    yield st, StrV([Term("text", getattr(node, "lineno", 0))])


EXTERNAL = {
    "ast.literal_eval": x_literal_eval, "inspect.getfullargspec": x_getfullargspec, "platform.system": x_text,
    "inspect.isclass": x_kind(lambda v: isinstance(v, ClassV)), "inspect.ismethod": x_kind(lambda v: isinstance(v, BoundV)),
    "inspect.isfunction": x_kind(lambda v: isinstance(v, FuncV)),
    "itertools.product": x_product, "itertools.combinations": x_combinations, "itertools.chain": x_chain, "itertools.islice": x_islice,
    "itertools.chain.from_iterable": x_chain_from, "collections.defaultdict": x_defaultdict,
    "collections.namedtuple": x_namedtuple, "sys.exit": x_exit,
}


def ev_ext(name):
    def go(I, args, kw, st, node):
        st.ev = st.ev + (("ext", name, tuple(args), node),)
        yield st, NONE
    return go


for _n in ("sys.stderr.write", "sys.stderr.flush", "sys.stdout.write", "sys.stdout.flush", "os.system"):
    EXTERNAL[_n] = ev_ext(_n)


# ---------------------------------------------------------------- methods
def method(I, o, name, args, kwargs, st, node):
    if isinstance(o, SlotRef):
        yield from slot_method(I, o, name, args, kwargs, st, node)
        return
    if isinstance(o, Ref):
        r = I.rec(st, o)
        if isinstance(r, Coll):
            yield from coll_method(I, o, r, name, args, kwargs, st, node)
            return
        if isinstance(r, DictRec):
            yield from dict_method(I, o, r, name, args, kwargs, st, node)
            return
        if isinstance(r, Gen):
            if name in ("__next__", "next"):
                yield from b_next(I, [o], {}, st, node, None)
                return
            if name == "close":
                yield st, NONE
                return
    if is_str(o):
        yield from str_method(I, o, name, args, kwargs, st, node)
        return
    if isinstance(o, (CollV, Tup)):
        yield from frozen_method(I, o, name, args, kwargs, st, node)
        return
    if isinstance(o, BuiltinV):
        # str.join(sep, xs), set.intersection(*xs), dict.get(d, k) ...
        if o.name == "dict" and name == "fromkeys":
            ops = []
            for bs, c, e in I.items_of(args[0], st, node):
                ops.append(("set", bs, c, e, args[1] if len(args) > 1 else NONE))
            yield st, I.new(st, DictRec(ops))
            return
        if o.name in ("set", "frozenset") and name in ("intersection", "union") and len(args) == 1 and isinstance(args[0], StarV):
            c = I.coll(args[0].v, st, node)
            items = as_concrete(c)
            if items is None:
                raise Unsupported("set operation on unknown sets", node)
            args = items
        if not args:
            yield st, Exc("TypeError", (), node)
            return
        yield from method(I, args[0], name, args[1:], kwargs, st, node)
        return
    if isinstance(o, SuperV):
        if name == "__init__":
            yield st, NONE
            return
    if isinstance(o, (Term, Poly)):
        a = o.single() if isinstance(o, Poly) else o
        if isinstance(a, Term) and ("method", name) in I.stubs:
            yield from I.stubs[("method", name)](I, o, args, kwargs, st, node)
            return
        if isinstance(o, Poly) and definite_nonstr(o) and hasattr(str, name) and not hasattr(int, name):
            yield st, Exc("AttributeError", (), node)
            return
        if a is not None and "opaque-method" in I.stubs:
            yield from I.stubs["opaque-method"](I, a, name, args, kwargs, st, node)
            return
    if isinstance(o, ClassV) and name == "__new__":
        raise Unsupported("__new__", node)
    if isinstance(o, K) and isinstance(o.v, float) and name == "is_integer":
        yield st, (T if o.v.is_integer() else F)
        return
    raise Unsupported("method %s of %r" % (name, o), node)


def frozen_ok(I, r, node):
    if r.thawed:
        raise Unsupported("change of a shared element", node)


def coll_method(I, o, r, name, args, kwargs, st, node):
    if name in ("append", "add") and ((r.kind == "list") == (name == "append")):
        frozen_ok(I, r, node)
        op = ("+", (), T, args[0])
        ops = r.ops + (op,)
        if name == "add":
            ops = tuple(dedupe(ops))
        st.heap[o.id] = Coll(r.kind, ops, r.thawed)
        yield st, NONE
        return
    if name in ("extend", "update") and ((r.kind == "list") == (name == "extend")):
        frozen_ok(I, r, node)
        states = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in states:
                for s2, c in each(I, a, s, node):
                    if isinstance(c, Exc):
                        yield s2, c
                        continue
                    nxt.append((s2, acc + (list(ops_of(c)) if all(x[0] in "+" for x in ops_of(c)) else
                                           list(ops_of(c)) if r.kind == "list" and not r.ops else add_ops(c))))
            states = nxt
        for s, acc in states:
            r2 = I.rec(s, o)
            ops = r2.ops + tuple(acc)
            if r.kind == "set":
                ops = tuple(dedupe(ops))
            s.heap[o.id] = Coll(r.kind, ops, r.thawed)
            yield s, NONE
        return
    if name == "insert" and r.kind == "list":
        frozen_ok(I, r, node)
        if args[0] == ZERO:
            st.heap[o.id] = Coll(r.kind, (("+", (), T, args[1]),) + r.ops, r.thawed)
            yield st, NONE
            return
    if name == "remove":
        frozen_ok(I, r, node)
        x = args[0]
        f = mkin(I.plain(x, st), r.val())
        err = "ValueError" if r.kind == "list" else "KeyError"
        for s, b in I.branch(f, st):
            if not b:
                yield s, Exc(err, (x,), node)
                continue
            c = s.heap[o.id] if o.id in s.heap else r
            items = as_concrete(c.val())
            if items is not None and r.kind == "list":
                hits = [i for i, y in enumerate(items) if I.decide(mkeq(y, x), s) is True]
                unk = [i for i, y in enumerate(items) if I.decide(mkeq(y, x), s) is None]
                if hits and (not unk or unk[0] > hits[0]):
                    del items[hits[0]]
                    s.heap[o.id] = Coll(r.kind, [("+", (), T, y) for y in items], r.thawed)
                    yield s, NONE
                    continue
            s.heap[o.id] = Coll(r.kind, c.ops + (("-1" if r.kind == "list" else "-", (), T, x),), r.thawed)
            yield s, NONE
        return
    if name == "discard" and r.kind == "set":
        frozen_ok(I, r, node)
        st.heap[o.id] = Coll(r.kind, r.ops + (("-", (), T, args[0]),), r.thawed)
        yield st, NONE
        return
    if name in ("difference_update", "intersection_update") and r.kind == "set":
        frozen_ok(I, r, node)
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            cur = I.rec(s, o)
            if name == "difference_update":
                new = set_op("-", cur.val(), c, node).ops
            else:
                new = set_op("&", cur.val(), c, node).ops
            s.heap[o.id] = Coll(r.kind, new, r.thawed)
            yield s, NONE
        return
    if name == "pop" and r.kind == "list":
        frozen_ok(I, r, node)
        items = as_concrete(r.val())
        if items is not None and (not args or args[0].isconst()):
            i = args[0].cval() if args else -1
            if not -len(items) <= i < len(items):
                yield st, Exc("IndexError", (), node)
                return
            v = items.pop(i)
            st.heap[o.id] = Coll(r.kind, [("+", (), T, y) for y in items], r.thawed)
            yield st, v
            return
        if args and r.ops and r.ops[-1][0] == "+" and not r.ops[-1][1]:
            pass
        if not args and r.ops and r.ops[-1][0] == "+" and not r.ops[-1][1] and r.ops[-1][2] == T:
            v = r.ops[-1][3]
            st.heap[o.id] = Coll(r.kind, r.ops[:-1], r.thawed)
            yield st, v
            return
    if name == "pop" and r.kind == "set":
        frozen_ok(I, r, node)
        for s, b in I.branch(nonempty(r.val()), st):
            if not b:
                yield s, Exc("KeyError", (), node)
                continue
            v = I.skolem(r.val(), s, "popped")
            s.heap[o.id] = Coll(r.kind, r.ops + (("-", (), T, v),), r.thawed)
            yield s, v
        return
    if name == "clear":
        frozen_ok(I, r, node)
        st.heap[o.id] = Coll(r.kind, (), r.thawed)
        yield st, NONE
        return
    if name in ("sort", "reverse"):
        frozen_ok(I, r, node)
        items = as_concrete(r.val())
        if items is not None and len(items) > 1:
            for s, v in (b_sorted(I, [o], kwargs, st, node, None) if name == "sort" else b_reversed(I, [o], {}, st, node, None)):
                c = I.coll(v, s)
                s.heap[o.id] = Coll("list", ops_of(c), r.thawed)
                yield s, NONE
            return
        yield st, NONE
        return
    yield from frozen_method(I, r.val(), name, args, kwargs, st, node)


def frozen_method(I, c, name, args, kwargs, st, node):
    kind = getattr(c, "kind", "tuple")
    if name == "copy":
        yield st, (I.newcoll(st, kind, ops_of(c)) if kind in ("list", "set") else c)
        return
    if name in ("union", "difference", "intersection", "issubset", "issuperset", "isdisjoint", "symmetric_difference"):
        states = [(st, c)]
        for a in args:
            nxt = []
            for s, cur in states:
                for s2, b in each(I, a, s, node):
                    if isinstance(b, Exc):
                        yield s2, b
                        continue
                    if name == "issubset":
                        nxt.append((s2, S.subset(cur, b)))
                    elif name == "issuperset":
                        nxt.append((s2, S.subset(b, cur)))
                    elif name == "isdisjoint":
                        nxt.append((s2, fnot(nonempty(set_op("&", cur, b, node)))))
                    else:
                        nxt.append((s2, set_op({"union": "|", "difference": "-", "intersection": "&",
                                                "symmetric_difference": "^"}[name], cur, b, node)))
            states = nxt
        for s, v in states:
            if isinstance(v, CollV):
                yield s, (I.newcoll(s, "set", v.ops) if kind == "set" else CollV("frozenset", v.ops))
            else:
                yield s, v
        return
    if name == "index" and kind in ("list", "tuple", "range"):
        items = as_concrete(c)
        f = mkin(args[0], c)
        for s, b in I.branch(f, st):
            if not b:
                yield s, Exc("ValueError", (), node)
                continue
            if items is not None:
                hits = [I.decide(mkeq(y, args[0]), s) for y in items]
                if None not in hits[:hits.index(True)] if True in hits else False:
                    yield s, P(hits.index(True))
                    continue
            if isinstance(c, CollV) and len(c.ops) == 1 and c.ops[0][0] == "+" and len(c.ops[0][1]) == 1 and c.ops[0][3] == P(c.ops[0][1][0]) \
                    and c.ops[0][1][0].lo is not None:
                yield s, args[0] - c.ops[0][1][0].lo
                continue
            yield s, P(Term("index", c, args[0]))
        return
    if name == "count":
        yield st, P(Term("count", c, args[0]))
        return
    if name in ("__contains__",):
        yield st, mkin(args[0], c)
        return
    if name in ("__len__",):
        yield st, coll_len(c)
        return
    if kind == "tuple" and name in ("append", "extend", "add", "update", "remove", "pop", "sort"):
        yield st, Exc("AttributeError", (K(name),), node)
        return
    if kind in ("set", "frozenset") and name in ("append", "extend", "sort", "index") or kind == "frozenset" and name in (
            "add", "remove", "discard", "update", "pop", "clear") or kind == "list" and name in ("add", "discard", "update"):
        yield st, Exc("AttributeError", (K(name),), node)
        return
    raise Unsupported("method %s of a %s" % (name, kind), node)


def slot_method(I, o, name, args, kwargs, st, node):
    r = I.rec(st, o.d)
    if name in ("append", "add"):
        st.heap[o.d.id] = DictRec(r.ops + (("aug", (), T, o.key, "+", args[0]),), r.default, r.kind)
        yield st, NONE
        return
    if name in ("extend", "update"):
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            r = I.rec(s, o.d)
            new = []
            for x in add_ops(c):
                if x[0] == "+":
                    new.append(("aug", x[1], x[2], o.key, "+", x[3]))
                else:
                    v = Var("x", dom=("elem", x[1]))
                    new.append(("aug", (v,), T, o.key, "+", P(v)))
            if r.default is not None and not any(I.decide(mkex(x[1], x[2]), s) is True for x in new):
                new.append(("aug", (), T, o.key, "touch", ZERO))          # the lookup alone creates the entry
            s.heap[o.d.id] = DictRec(r.ops + tuple(new), r.default, r.kind)
            yield s, NONE
        return
    if name in ("remove", "discard"):
        if name == "remove" and I.decide(mkin(I.plain(args[0], st), I.slot_value(o, st)), st) is False:
            yield st, Exc("KeyError" if o.kind == "set" else "ValueError", (args[0],), node)
            return
        st.heap[o.d.id] = DictRec(r.ops + (("aug", (), T, o.key, "-", args[0]),), r.default, r.kind)
        yield st, NONE
        return
    yield from frozen_method(I, I.slot_value(o, st), name, args, kwargs, st, node)


def dict_entries(r):
    """[(key, value)] in order for a dict whose writes all have comparable keys, or None."""
    out = []
    for x in r.ops:
        if x[0] not in ("set", "del") or x[1] or x[2] != T:
            return None
        hit = None
        for i, (k, _v) in enumerate(out):
            q = mkeq(k, x[3])
            if q == T:
                hit = i
            elif q != F:
                return None
        if x[0] == "del":
            if hit is not None:
                out.pop(hit)
        elif hit is None:
            out.append((x[3], x[4]))
        else:
            out[hit] = (out[hit][0], x[4])
    return out


def slot_entry(I, o, r, k, st):
    if r.default == "int":
        if I.explicit and all(x[0] == "aug" and x[4] == "count" and x[5] == ONE for x in r.ops):
            fams = []
            for x in r.ops:
                b, c, key = refresh(x[1], split_first(x[2])[0], x[3])
                fams.append(("+", b, f_and(c, mkeq(key, k)), NONE))
            return coll_len(CollV("list", fams))
        return P(Term("slotcount", o.id, k))
    return I.slot_value(SlotRef(o, k, r.default if r.default in ("set", "list") else "set"), st)


def apart(I, keys, st):
    """[(state, keys)]: the different ones among the keys, in order."""
    out = [(st, [])]
    for k in keys:
        out = [(s2, have if i is not None else have + [k]) for s, have in out for s2, i in which_equal(I, k, have, s)]
    return out


def live_entries(I, r, st):
    """[(state, [(key, value)])] of a dict of a few entries whose keys can be equal; None: not of this kind."""
    if r.default is not None or len(r.ops) > 24 or any(x[0] not in ("set", "del") or x[1] or x[2] != T for x in r.ops):
        return None
    out = [(st, [])]
    for x in r.ops:
        nxt = []
        for s, have in out:
            for s2, i in which_equal(I, x[3], [k for k, _v in have], s):
                if x[0] == "del":
                    nxt.append((s2, have if i is None else have[:i] + have[i + 1:]))
                elif i is None:
                    nxt.append((s2, have + [(x[3], x[4])]))
                else:
                    nxt.append((s2, have[:i] + [(have[i][0], x[4])] + have[i + 1:]))
        out = nxt
        if len(r.ops) > 8 and len(out) > 1:
            return None
    return out


def const_keys(I, r, st):
    """The keys of a dict whose keys are all constants, each with its condition."""
    by = {}
    for x in r.ops:
        by.setdefault((type(x[3].v), x[3].v), []).append(x)
    out = []
    for xs in by.values():
        c = T
        if not any(not x[1] and x[2] == T for x in xs):
            c = f_or(*[mkex(x[1], x[2]) for x in xs])
            c = {True: T, False: F}.get(I.decide(c, st), c)
        if c != F:
            out.append(("+", (), c, xs[0][3]))
    return out


def dict_method(I, o, r, name, args, kwargs, st, node):
    if name in ("keys", "__iter__"):
        yield st, I.dict_keys(r)
        return
    if name in ("items", "values"):
        if any(x[0] == "aug" for x in r.ops):
            if all(x[0] in ("aug", "set") and not x[1] and x[2] == T for x in r.ops):
                # few entries: one state per way in which their keys can be equal
                states = apart(I, [x[3] for x in r.ops], st)
                for s, keys in states:
                    yield s, CollV("gen", [("+", (), T, Tup([k, v]) if name == "items" else v) for k, v in (
                        (k, slot_entry(I, o, r, k, s)) for k in keys)])
                return
            # one entry per key of a slot dict
            keys = I.dict_keys(r)
            ops = []
            if all(x[0] in ("aug", "set") and isinstance(x[3], K) for x in r.ops):
                keys = CollV("set", const_keys(I, r, st))
            for bs, c, k in I.items_of(keys, st, node):
                v = slot_entry(I, o, r, k, st)
                ops.append(("+", bs, c, Tup([k, v]) if name == "items" else v))
            yield st, CollV("gen", ops)
            return
        entries = dict_entries(r)
        if entries is not None:
            yield st, CollV("gen", [("+", (), T, Tup([k, v]) if name == "items" else v) for k, v in entries])
            return
        states = live_entries(I, r, st)
        if states is not None:
            for s, entries in states:
                yield s, CollV("gen", [("+", (), T, Tup([k, v]) if name == "items" else v) for k, v in entries])
            return
        ops = []
        live = list(r.ops)
        for x in live:
            if x[0] != "set":
                raise Unsupported("items of a modified dict", node)
            ops.append(("+", x[1], x[2], Tup([x[3], x[4]]) if name == "items" else x[4]))
        # later entries override earlier ones only if keys can be equal
        for i, a in enumerate(live):
            for b in live[i + 1:]:
                if a[1] or b[1]:
                    b1, c1, k1 = refresh(a[1], a[2], a[3])
                    b2, c2, k2 = refresh(b[1], b[2], b[3])
                    if I.dec(st).exists(b1 + b2, f_and(c1, c2, mkeq(k1, k2))) is not False:
                        raise Unsupported("items of a dict with possibly equal keys", node)
                elif mkeq(a[3], b[3]) != F:
                    raise Unsupported("items of a dict with possibly equal keys", node)
        yield st, CollV("gen", ops)
        return
    if name == "get":
        for s, v in I.dict_get(o, args[0], st, node, missing=False):
            if v is None or isinstance(v, Exc):
                yield s, (args[1] if len(args) > 1 else NONE)
            else:
                yield s, v
        return
    if name == "pop":
        for s, v in I.dict_get(o, args[0], st, node, missing=len(args) < 2):
            if isinstance(v, Exc):
                yield s, v
                continue
            if v is None:
                yield s, args[1]
                continue
            if isinstance(v, SlotRef):
                v = I.newcoll(s, v.kind, I.slot_value(v, s).ops)
            r2 = I.rec(s, o)
            s.heap[o.id] = S.table_set(r2, args[0], None, node) if r2.kind == "table" else \
                DictRec(r2.ops + (("del", (), T, args[0]),), r2.default, r2.kind)
            yield s, v
        return
    if name == "setdefault":
        for s, v in I.dict_get(o, args[0], st, node, missing=False):
            if v is None:
                d = args[1] if len(args) > 1 else NONE
                for s2, k, x in I.setitem(o, args[0], d, s, node):
                    if isinstance(d, Ref) and isinstance(I.rec(s2, d), Coll):
                        yield s2, SlotRef(o, args[0], I.rec(s2, d).kind)
                    else:
                        yield s2, d
            else:
                yield s, v
        return
    if name == "update" and len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.rec(st, v), DictRec):
            st.heap[o.id] = DictRec(r.ops + I.rec(st, v).ops, r.default, r.kind)
            yield st, NONE
            return
    if name == "copy":
        if r.kind != "table":
            no_shared(r, node)
        yield st, I.new(st, DictRec(r.ops, r.default, r.kind))
        return
    if name == "clear":
        st.heap[o.id] = DictRec((), r.default, r.kind)
        yield st, NONE
        return
    raise Unsupported("dict.%s" % name, node)


def no_shared(r, node):
    """A shallow copy of a dict: stored collections would be shared, which is not modelled."""
    if r.default in ("set", "list") or any(o[0] == "aug" and o[4] != "count" or o[0] == "set" and isinstance(o[4], CollV) and o[4].kind in ("list", "set")
                                           for o in r.ops):
        raise Unsupported("shallow copy of a dict of collections", node)


def str_method(I, o, name, args, kwargs, st, node):
    if isinstance(o, K) and all(isinstance(a, K) or isinstance(a, Poly) and a.isconst() for a in args) and \
            name in ("split", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "partition", "lower", "upper", "find",
                     "isdigit", "isspace", "rjust", "ljust", "count", "rpartition", "splitlines", "title", "isalpha"):
        a = [x.v if isinstance(x, K) else x.cval() for x in args]
        try:
            v = getattr(o.v, name)(*a)
        except ValueError:
            yield st, Exc("ValueError", (), node)
            return
        except TypeError:
            yield st, Exc("TypeError", (), node)
            return
        if isinstance(v, bool):
            yield st, (T if v else F)
        elif isinstance(v, int):
            yield st, P(v)
        elif isinstance(v, str):
            yield st, K(v)
        elif isinstance(v, tuple):
            yield st, Tup([K(x) for x in v])
        else:
            yield st, I.newcoll(st, "list", [("+", (), T, K(x)) for x in v])
        return
    if name == "join":
        for s, c in each(I, args[0], st, node):
            if isinstance(c, Exc):
                yield s, c
                continue
            items = as_concrete(c)
            if items is not None and len(ops_of(c)) == len(items):
                parts = []
                bad = False
                for i, x in enumerate(items):
                    if i:
                        parts.extend(to_parts(o))
                    if is_str(x):
                        parts.extend(to_parts(x))
                    elif isinstance(x, (Poly, CollV, Tup)) and definite_nonstr(x):
                        bad = True
                    else:
                        parts.append(Term("strval", x if hash_ok(x) else repr(x)))
                yield s, (Exc("TypeError", (), node) if bad else mkstr(parts))
                continue
            for bs, cond, el in I.items_of(c, s, node):
                if isinstance(el, (Poly, CollV, Tup)) and definite_nonstr(el):
                    if I.decide(mkex(bs, cond), s) is not False:
                        yield s.fork(mkex(*refresh(bs, cond))), Exc("TypeError", (), node)
            yield s, StrV([Term("join", o, c)])
        return
    if isinstance(o, StrV) and name == "split" and args and isinstance(args[0], K):
        if args[0].v == "":
            yield st, Exc("ValueError", (), node)
            return
        most = kwargs.get("maxsplit", args[1] if len(args) > 1 else P(-1))
        if not isinstance(most, Poly) or not most.isconst():
            raise Unsupported("maxsplit", node)
        p = o.parts[0]
        if len(o.parts) == 1 and most == P(1) and isinstance(p, Term) and p.op == "text" and len(p.args) == 2 and not without(p, args[0].v[:1]):
            for s, b in I.branch(str_contains(I, args[0], o, st, node), st):
                v = [text("%s up to %s" % (p.args[0], args[0].v), p.args[1] + args[0].v[:1] * (len(args[0].v) == 1)), text("%s after %s" % (p.args[0], args[0].v), p.args[1])] if b else [o]
                yield s, I.newcoll(s, "list", [("+", (), T, x) for x in v])
            return
        yield st, I.newcoll(st, "list", [("+", (), T, x) for x in split_parts(o.parts, args[0].v, most.cval())])
        return
    if name == "split" and args and isinstance(args[0], (StrV, K)) and to_parts(args[0]) in ([], [""]):
        yield st, Exc("ValueError", (), node)
        return
    if isinstance(o, StrV) and name == "partition" and isinstance(args[0], K):
        ps = split_parts(o.parts, args[0].v)
        if len(ps) == 1:
            yield st, Tup([o, K(""), K("")])
        else:
            rest = []
            for i, p in enumerate(ps[1:]):
                if i:
                    rest.append(args[0].v)
                rest.extend(to_parts(p))
            yield st, Tup([ps[0], args[0], mkstr(rest)])
        return
    if isinstance(o, StrV) and name == "replace" and all(isinstance(a, K) for a in args) and args[0].v and \
            all(isinstance(p, str) or without(p, args[0].v) for p in o.parts):
        if len(args[0].v) == 1 or not any(args[0].v in p for p in o.parts if isinstance(p, str)):
            yield st, mkstr([p.replace(args[0].v, args[1].v) if isinstance(p, str) else p for p in o.parts])
            return
    if isinstance(o, StrV) and name in ("strip", "lstrip", "rstrip") and (not args or isinstance(args[0], K) and isinstance(args[0].v, str)):
        outs = stripped(I, list(o.parts), name != "rstrip", name != "lstrip", st, args[0].v if args else None)
        if outs is not None:
            yield from outs
            return
        ps = list(o.parts)
        if ps and isinstance(ps[0], str) and name != "rstrip":
            ps[0] = ps[0].lstrip()
        if ps and isinstance(ps[-1], str) and name != "lstrip":
            ps[-1] = ps[-1].rstrip()
        ends = ([o.parts[0]] if name != "rstrip" else []) + ([o.parts[-1]] if name != "lstrip" else [])
        if o.parts and all(isinstance(p, str) and p.strip() or without(p, string.whitespace) for p in ends):
            yield st, mkstr(ps)
            return
        if any(isinstance(p, Term) and p.op == "text" and len(p.args) == 2 for p in ends) and \
                all(isinstance(p, str) and p.strip() or isinstance(p, Term) and p.op == "text" and len(p.args) == 2 for p in ends):
            for i in ([0] if name != "rstrip" else []) + ([len(ps) - 1] if name != "lstrip" else []):
                if isinstance(ps[i], Term) and ps[i].op == "text":
                    ps[i] = Term("text", "stripped %s" % ps[i].args[0], ps[i].args[1])
            yield st, mkstr(ps)
            return
    if isinstance(o, StrV) and name in ("startswith",) and isinstance(args[0], K):
        p = o.parts[0] if o.parts else ""
        if isinstance(p, str) and len(p) >= len(args[0].v):
            yield st, (T if p.startswith(args[0].v) else F)
            return
    if isinstance(o, StrV) and name == "isdigit":
        if all(isinstance(p, str) and p.isdigit() or only_digits(p) for p in o.parts):
            yield st, T
            return
    if name == "format":
        parts = [Term("fmt", o, *[a if hash_ok(a) else repr(a) for a in args])]
        yield st, StrV(parts)
        return
    hs = [a if hash_ok(a) else repr(a) for a in args]
    if name in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "rjust", "ljust", "zfill", "title", "center"):
        yield st, StrV([Term("strop", name, o, *hs)])
        return
    if name in ("startswith", "endswith", "isdigit", "isspace", "isalpha", "isalnum", "isidentifier", "isupper", "islower", "isdecimal", "isnumeric", "istitle"):
        yield st, ("strtest", name, o) + tuple(hs)
        return
    if name in ("find", "count", "index", "rfind"):
        yield st, P(Term("strpos", name, o, *hs))
        return
    if name in ("split", "splitlines"):
        yield st, CollV("list", [("all", Term("split", o, *hs))])
        return
    if name in ("partition", "rpartition"):
        yield st, Tup([StrV([Term("part", name, o, i, *hs)]) for i in range(3)])
        return
    raise Unsupported("str.%s" % name, node)
