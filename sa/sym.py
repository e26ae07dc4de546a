"""Path-sensitive abstract interpreter over the term domain of poly.py and logic.py.

Nothing of /repo is executed: statements are interpreted over abstract values.  Loops over collections of unknown size
are summarised by one generic iteration with fresh bound variables; whatever has no transfer function raises Unsupported,
which the checks report as UNDECIDED.
"""
import ast
import builtins as _b
import itertools
import string

from .logic import (CollV, Decider, F, K, Sub, StrV, T, Tup, coll_len, constant, f_and, f_or, flat, fnot, free_vars, isf, mentions,
                    mkeq, mkeqp, mkex, mkin, mkite, mklt, nonempty, refresh, split_first, subst)
from .poly import H, N, ONE, P, PH, PW, Poly, Term, Var, W, ZERO, divmod_poly, negative, nonneg

NONE = K(None)
_ids = itertools.count(1)


class Unsupported(Exception):
    def __init__(self, why, node=None):
        Exception.__init__(self, why)
        self.node = node


class Exc(object):
    """A raised exception."""
    def __init__(self, cls, args=(), node=None):
        self.cls, self.args, self.node = cls, tuple(args), node

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return "raise %s" % self.name


class Ref(object):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "#%d" % self.id


class FuncV(object):
    def __init__(self, node, mod, env=None, defaults=(), kwdefaults=None, cls=None, kind="func", name=None):
        self.node, self.mod, self.env, self.cls, self.kind = node, mod, env, cls, kind
        self.defaults, self.kwdefaults = list(defaults), dict(kwdefaults or {})
        self.name = name or getattr(node, "name", "<lambda>")
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node))

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.node is self.node and o.env == self.env

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return "<%s.%s>" % (self.mod, self.qual)


class BoundV(object):
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func == self.func and o.selfv == self.selfv

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.func, self.selfv))

    def __repr__(self):
        return "%r of %r" % (self.func, self.selfv)

    def parts_(self):
        return (self.selfv,)

    def subst(self, s):
        return BoundV(self.func, s(self.selfv))


class ClassV(object):
    ident = True            # compared by identity

    def __init__(self, name, mod, bases=(), attrs=None, node=None, fields=None):
        self.name, self.mod, self.bases, self.attrs, self.node, self.fields = name, mod, list(bases), dict(attrs or {}), node, fields

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def tuple_fields(self):
        for c in self.mro():
            if c.fields is not None:
                return c.fields
        return None

    def extbase(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, (BuiltinV, ExtV)) and b.name != "object":
                    return b
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class ExtV(object):
    ident = True            # compared by identity

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class BuiltinV(object):
    ident = True            # compared by identity

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name

    def __hash__(self):
        return hash(("builtin", self.name))

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModV(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class MethV(object):
    """A method of a built-in value."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "%r.%s" % (self.obj, self.name)


class SuperV(object):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class SlotRef(object):
    """The mutable value of d[key] of a defaultdict."""
    def __init__(self, d, key, kind):
        self.d, self.key, self.kind = d, key, kind

    def __repr__(self):
        return "%r[%r]" % (self.d, self.key)


class StoreV(object):
    """A place in a sudoku's private storage: attribute name and subscript path."""
    def __init__(self, board, name, path=()):
        self.board, self.name, self.path = board, name, tuple(path)

    def __repr__(self):
        return "%r.%s%s" % (self.board, self.name, "".join("[%r]" % (p,) for p in self.path))

    def parts_(self):
        return self.path

    def subst(self, s):
        return StoreV(s(self.board), self.name, [s(p) for p in self.path])

    def __eq__(self, o):
        return isinstance(o, StoreV) and (o.board, o.name, o.path) == (self.board, self.name, self.path)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.name, self.path))


class ObjV(object):
    """A frozen instance."""
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, tuple(sorted(attrs.items(), key=lambda kv: kv[0]))

    def parts_(self):
        return [v for _k, v in self.attrs]

    def subst(self, s):
        return ObjV(self.cls, {k: s(v) for k, v in self.attrs})

    def get(self, k):
        return dict(self.attrs).get(k)

    def __eq__(self, o):
        return isinstance(o, ObjV) and o.cls is self.cls and o.attrs == self.attrs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.cls.name, self.attrs))

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % kv for kv in self.attrs))


class Coll(object):
    """Heap record of a mutable or consumable collection."""
    __slots__ = ("kind", "ops", "thawed")

    def __init__(self, kind, ops=(), thawed=False):
        self.kind, self.ops, self.thawed = kind, tuple(ops), thawed

    def val(self):
        return CollV(self.kind, self.ops)


class DictRec(object):
    """ops: ('set', binders, cond, key, value) | ('aug', binders, cond, key, op, elem) | ('del', binders, cond, key) |
    ('carried', uid).  kind "table": constant keys only, stored collections are references to heap objects."""
    __slots__ = ("ops", "default", "kind")

    def __init__(self, ops=(), default=None, kind="dict"):
        self.ops, self.default, self.kind = tuple(ops), default, kind


def table_set(r, key, v, node):
    """A table with one entry stored or (v None) removed."""
    if not constant(key) or any(o[0] != "set" or o[1] or o[2] != T for o in r.ops):
        raise Unsupported("table entry", node)
    new = ("set", (), T, key, v)
    ops = list(r.ops)
    at = [i for i, o in enumerate(ops) if o[3] == key]
    if v is None:
        ops = [o for o in ops if o[3] != key]
    elif at:
        ops[at[0]] = new
    else:
        ops.append(new)
    return DictRec(ops, r.default, r.kind)


class Inst(object):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Board(object):
    """A sudoku: base contents plus a log of writes ('n'|'c'|'rm', binders, cond, field Tup, value)."""
    __slots__ = ("base", "attrs", "log", "new", "cls")

    def __init__(self, base, attrs, log=(), new=False, cls=None):
        self.base, self.attrs, self.log, self.new, self.cls = base, dict(attrs), tuple(log), new, cls


class Gen(object):
    __slots__ = ("func", "env", "coll", "pos")

    def __init__(self, func, env, coll=None, pos=0):
        self.func, self.env, self.coll, self.pos = func, env, coll, pos


def is_pick(f):
    """Does the formula only say which element of a collection was picked (see skolem)?"""
    return f[0] == "truth" and isinstance(f[1], Term) and f[1].op == "picked"


class State(object):
    __slots__ = ("heap", "frames", "pc", "ev")

    def __init__(self, heap=None, frames=None, pc=(), ev=()):
        self.heap, self.frames, self.pc, self.ev = heap or {}, frames or {}, pc, ev

    def fork(self, *facts):
        s = State(dict(self.heap), dict(self.frames), self.pc, self.ev)
        for f in facts:
            s.add(f)
        return s

    def add(self, f):
        for g in (f[1] if f[0] == "and" else (f,)):
            if g != T and g not in self.pc:
                self.pc = self.pc + (g,)
        return self

    def feasible(self):
        if F in self.pc:
            return False
        s = set(self.pc)
        return not any(fnot(g) in s for g in self.pc)

    def set(self, fid, name, v):
        d = dict(self.frames[fid])
        d[name] = v
        self.frames[fid] = d


class Frame(object):
    """Static context of code being interpreted."""
    __slots__ = ("fid", "mod", "cls", "func", "parents", "isgen", "out")

    def __init__(self, fid, mod, cls, func, parents=(), isgen=False):
        self.fid, self.mod, self.cls, self.func, self.parents, self.isgen = fid, mod, cls, func, parents, isgen


def own(node):
    """Nodes of a function body without nested functions and comprehension-independent scopes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def declarations(node):
    """The nonlocal and global statements of a function."""
    ds = getattr(node, "_declarations", None)
    if ds is None:
        ds = node._declarations = [n for n in own(node) if isinstance(n, (ast.Nonlocal, ast.Global))]
    return ds


def assigned_names(stmts):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return out


EXC_BASES = {
    "StopIteration": "Exception", "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError", "AssertionError": "Exception",
    "SyntaxError": "Exception", "MemoryError": "Exception", "OSError": "Exception", "EOFError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "IndentationError": "SyntaxError",
    "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException", "IOError": "Exception", "NameError": "Exception", "Exception of its own": "Exception",
}


def exc_matches(name, handler):
    if handler == "IOError":
        handler = "OSError"
    while name:
        if name == handler:
            return True
        name = EXC_BASES.get(name)
    return False


BUDGET = [0]


def fresh_budget():
    """Begin an obligation: the number of statements that one obligation may take is bounded."""
    BUDGET[0] += 1


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog):
        self.prog = prog
        self.globals = {}
        self.gheap = {}
        self.stubs = {}
        self.depth = 0
        self.stack = []
        self.templates = None
        self.raw = False
        self.merging = False                # paths through a loop that leave the same behind become one
        self.explicit = False               # combinations as families of their elements; no case is made of large "not yet seen" tests
        self.seen = {}
        self.steps = self.total = 0         # statements executed for this obligation, and before
        self.limit = 150000
        self.budget = BUDGET[0]
        self.visited = set()
        self.calls = []

    # ------------------------------------------------------------ heap
    def new(self, st, rec):
        r = Ref(next(_ids))
        st.heap[r.id] = rec
        return r

    def rec(self, st, ref):
        r = st.heap.get(ref.id)
        if r is None:
            r = self.gheap.get(ref.id)
        if r is None:
            raise Unsupported("unknown object")
        return r

    def newcoll(self, st, kind, ops=()):
        return self.new(st, Coll(kind, ops))

    # ------------------------------------------------------------ module level
    def module_def(self, mod, name):
        tree = self.prog.trees.get(mod)
        if tree is None:
            return None
        found = None

        def scan(stmts):
            nonlocal found
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                    found = s
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        if (a.asname or a.name.split(".")[0]) == name:
                            found = (s, a)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                                found = s
                elif isinstance(s, ast.If):
                    r = version_test(s.test)
                    if r is not False:
                        scan(s.body)
                    if r is not True:
                        scan(s.orelse)
                elif isinstance(s, ast.Try):
                    for h in s.handlers:
                        scan(h.body)
                    scan(s.orelse)
                    scan(s.body)
        scan(tree.body)
        return found

    def module_changes(self, mod, name, d):
        """Later module-level statements that change the value of a name in place."""
        body = self.prog.trees[mod].body
        if d not in body:
            return []

        def changes(n):
            for x in ast.walk(n):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) \
                        and x.value.id == name:
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                        x.func.value.id == name and x.func.attr in ("append", "extend", "update", "add", "insert", "remove", "pop", "setdefault", "clear", "sort", "reverse"):
                    return True
            return False
        return [s for s in body[body.index(d) + 1:] if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.For, ast.Delete)) and changes(s)]

    def glob(self, mod, name):
        key = (mod, name)
        if key in self.globals:
            return self.globals[key]
        d = self.module_def(mod, name)
        if d is None:
            if mod in self.prog.trees and (mod + "." + name) in self.prog.trees:
                return ModV(mod + "." + name)
            if name == "__name__":
                return K(mod)
            if hasattr(_b, name):
                return BuiltinV(name)
            return None
        if isinstance(d, tuple):
            v = self.import_value(d[0], d[1], mod)
            self.globals[key] = v
            return v
        st = State()
        fr = Frame(0, mod, None, None)
        st.frames[0] = {}
        if isinstance(d, ast.FunctionDef):
            v = self.make_func(d, fr, st, None)
            for dec in d.decorator_list:
                v = ("unsupported decorator",) and self.decorated(dec, v, fr, st)
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, fr, st, key)
        else:
            self.globals[key] = Term("global", name)
            outs = [(s, k, x) for s, k, x in self.exec(d, st, fr)]
            if len(outs) != 1 or outs[0][1] != "n":
                raise Unsupported("module-level %s" % name, d)
            st = outs[0][0]
            v = st.frames[0].get(name)
            if v is None:
                raise Unsupported("module-level %s" % name, d)
            for later in self.module_changes(mod, name, d):
                outs = [(s, k, x) for s, k, x in self.exec(later, st, fr)]
                if len(outs) != 1 or outs[0][1] != "n":
                    raise Unsupported("module-level %s" % name, later)
                st = outs[0][0]
            v = st.frames[0].get(name)
        self.gheap.update(st.heap)
        self.globals[key] = v
        return v

    def import_value(self, s, a, mod):
        if isinstance(s, ast.Import):
            n = a.name if a.asname else a.name.split(".")[0]
            return ModV(n) if n in self.prog.trees else ExtV(n)
        m = s.module or ""
        if s.level:
            base = mod.split(".")
            if self.prog.files.get(mod, "").endswith("__init__.py"):
                base = base + [""]
            base = base[:-s.level]
            m = ".".join(base + ([m] if m else []))
        if m in self.prog.trees:
            v = self.glob(m, a.name)
            if v is None:
                raise Unsupported("cannot import %s from %s" % (a.name, m), s)
            return v
        q = m + "." + a.name
        return K(EXT_CONST[q]) if q in EXT_CONST else ExtV(q)

    def decorated(self, dec, v, fr, st):
        n = dec.id if isinstance(dec, ast.Name) else (dec.attr if isinstance(dec, ast.Attribute) else None)
        if n in ("classmethod", "staticmethod", "property") and isinstance(v, FuncV):
            return FuncV(v.node, v.mod, v.env, v.defaults, v.kwdefaults, v.cls, n, v.name)
        if n in ("total_ordering", "wraps", "unique"):
            return v
        raise Unsupported("decorator", dec)

    def make_func(self, node, fr, st, cls):
        a = node.args
        ds, kds = [], {}
        for d in a.defaults:
            ds.append(self.one(d, st, fr))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kds[p.arg] = self.one(d, st, fr)
        env = None if fr.fid == 0 else (fr.fid,) + fr.parents
        return FuncV(node, fr.mod, env, ds, kds, cls)

    def one(self, e, st, fr):
        outs = list(self.ev(e, st, fr))
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            raise Unsupported("expression with several outcomes", e)
        if outs[0][0] is not st:
            st.heap, st.frames, st.pc, st.ev = outs[0][0].heap, outs[0][0].frames, outs[0][0].pc, outs[0][0].ev
        return outs[0][1]

    def make_class(self, d, fr, st, key=None):
        bases = [self.one(b, st, fr) for b in d.bases]
        c = ClassV(d.name, fr.mod, bases, node=d)
        if key:
            self.globals[key] = c
        cfid = next(_ids)
        st.frames[cfid] = {}
        cfr = Frame(cfid, fr.mod, c, None, (fr.fid,) + fr.parents if fr.fid else ())
        for s in d.body:
            if isinstance(s, ast.FunctionDef):
                saved = cfr.fid
                f = self.make_func(s, Frame(0, fr.mod, c, None), st, c)
                for dec in reversed(s.decorator_list):
                    f = self.decorated(dec, f, fr, st)
                c.attrs[self.mangle(s.name, c)] = f
                st.set(saved, s.name, f)
            elif isinstance(s, ast.Expr):
                continue
            else:
                outs = list(self.exec(s, st, cfr))
                if len(outs) != 1 or outs[0][1] != "n":
                    raise Unsupported("class body", s)
                st2 = outs[0][0]
                st.heap, st.frames = st2.heap, st2.frames
                for k, v in st.frames[cfid].items():
                    c.attrs[self.mangle(k, c)] = v
        for dec in d.decorator_list:
            self.decorated(dec, c, fr, st)
        return c

    @staticmethod
    def mangle(name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (cls.name.lstrip("_"), name)
        return name

    # ------------------------------------------------------------ deciding
    def dec(self, st):
        return Decider(pc=st.pc)

    def decide(self, f, st):
        if f == T:
            return True
        if f == F:
            return False
        if self.explicit and f[0] in ("ex", "not", "or", "and") and len(repr(f)) > 400:
            return True if f in st.pc else False if fnot(f) in st.pc else None
        return self.dec(st).decide(f)

    def branch(self, f, st):
        """[(state, bool)]"""
        r = self.decide(f, st)
        if r is True:
            return [(st, True)]
        if r is False:
            return [(st, False)]
        return [(st.fork(f), True), (st.fork(fnot(f)), False)]

    # ------------------------------------------------------------ values
    def coll(self, v, st, node=None):
        """Any iterable value as CollV or Tup."""
        if isinstance(v, (CollV, Tup)):
            return v
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Coll):
                return r.val()
            if isinstance(r, DictRec):
                return self.dict_keys(r)
        if isinstance(v, SlotRef):
            return self.slot_value(v, st)
        if isinstance(v, K) and isinstance(v.v, str):
            return Tup([K(c) for c in v.v])
        if isinstance(v, StrV):
            return self.characters(v, st)
        if isinstance(v, Term):
            return CollV("iter", [("all", v)])
        if isinstance(v, Poly) and v.single() is not None and not isinstance(v.single(), Var):
            return CollV("iter", [("all", v.single())])
        if isinstance(v, Poly) and isinstance(v.single(), Var) and v.single().dom is not None:
            return CollV("iter", [("all", v.single())])
        raise Unsupported("not iterable: %r" % (v,), node)

    def characters(self, v, st):
        """The characters of a text; those of an unknown part as a family."""
        from . import symlib
        out = []
        for p in v.parts:
            if isinstance(p, str):
                out.extend(("+", (), T, K(c)) for c in p)
            elif symlib.digit_run(p) is not None and all(self.decide(mklt(e.args[0] - 10), st) is True for _, _, e in symlib.digit_run(p)):
                out.extend(("+",) + refresh(b, c, StrV([e])) for b, c, e in symlib.digit_run(p))
            elif p.op == "char" or symlib.only_digits(p) and self.decide(mklt(p.args[0] - 10), st) is True:
                out.append(("+", (), T, StrV([p])))
            else:
                k = Var("k", ZERO, P(Term("len", StrV([p]))))
                out.append(("+", (k,), T, StrV([Term("char", p, P(k))])))
        return Tup([o[3] for o in out]) if not any(o[1] for o in out) else CollV("list", out)

    def iscoll(self, v, st):
        if isinstance(v, (CollV, Tup, SlotRef)):
            return True
        return isinstance(v, Ref) and isinstance(self.rec(st, v), Coll)

    def dict_keys(self, r):
        ops = []
        for o in r.ops:
            if o[0] in ("set", "aug"):
                ops.append(("+", o[1], o[2], o[3]))
            elif o[0] == "del":
                ops.append(("-", o[1], o[2], o[3]))
            else:
                ops.append(o)
        return CollV("set", dedupe(ops))

    def items_of(self, v, st, node=None):
        """[(binders, cond, elem)] in order; elements of opaque collections are bound variables."""
        c = self.coll(v, st, node)
        if isinstance(c, Tup):
            return [((), T, x) for x in c.items]
        fl = flat(c)
        if fl is None or any(o[0] == "carried" for o in c.ops):
            v = Var("x", dom=("elem", c))
            return [((v,), T, P(v))]
        if c.kind in ("set", "frozenset"):
            # equal elements occur once
            out, seen = [], []
            for bs, cond, el in fl:
                if (bs, cond, el) in seen:
                    continue
                c2 = cond
                if not bs and all(not o[0] for o in seen):
                    c2 = f_and(cond, *[fnot(f_and(o[1], mkeq(o[2], el))) for o in seen])
                seen.append((bs, cond, el))
                if c2 != F:
                    out.append((bs, c2, el))
            return out
        return fl

    def truth(self, v, st, node=None):
        if isf(v):
            return v
        if isinstance(v, Poly):
            s = v.single()
            if isinstance(s, Var) and s.dom is not None or isinstance(s, Term) and s.op not in INT_OPS:
                return ("truth", s)
            return fnot(mkeqp(v))
        if isinstance(v, K):
            return T if v.v else F
        if isinstance(v, StrV):
            return T if any(isinstance(p, str) or p.op in ("str", "char") for p in v.parts) else (F if not v.parts else ("truth", v))
        if isinstance(v, (Tup, CollV)):
            return nonempty(v)
        if isinstance(v, SlotRef):
            return nonempty(self.slot_value(v, st))
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Coll):
                return nonempty(r.val())
            if isinstance(r, DictRec):
                return nonempty(self.dict_keys(r))
            if isinstance(r, Inst):
                for m in ("__bool__", "__len__"):
                    f = r.cls.find(m)
                    if f is not None:
                        outs = list(self.call(BoundV(f, v), [], {}, st, node))
                        if len(outs) != 1 or isinstance(outs[0][1], Exc):
                            raise Unsupported("truth of instance", node)
                        return self.truth(outs[0][1], st)
                return T
            return T
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, MethV, BuiltinV, ExtV, ObjV)):
            return T
        if isinstance(v, Term):
            return ("truth", v)
        if isinstance(v, StoreV):
            return self.truth(self.store_read(v, st, node), st, node)
        raise Unsupported("truth of %r" % (v,), node)

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, mark):
        """Replace references to objects created since mark by immutable snapshots."""
        if isinstance(v, Ref):
            if v.id < mark:
                return v
            r = self.rec(st, v)
            if isinstance(r, Coll):
                return CollV(r.kind, [self.freeze_op(o, st, mark) for o in r.ops])
            if isinstance(r, Inst):
                return ObjV(r.cls, {k: self.freeze(x, st, mark) for k, x in r.attrs.items()})
            raise Unsupported("cannot freeze %s" % type(r).__name__)
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, mark) for x in v.items], v.cls)
        if isinstance(v, CollV):
            return CollV(v.kind, [self.freeze_op(o, st, mark) for o in v.ops])
        if isinstance(v, SlotRef):
            return self.slot_value(v, st)
        if isinstance(v, BoundV):
            return BoundV(v.func, self.freeze(v.selfv, st, mark))
        return v

    def freeze_op(self, o, st, mark):
        if o[0] in ("+", "-", "-1"):
            return (o[0], o[1], o[2], self.freeze(o[3], st, mark))
        return o

    def thaw(self, v, st):
        """An element read out of a collection: frozen mutable values become (guarded) heap objects."""
        if isinstance(v, CollV) and v.kind in ("list", "set"):
            return self.new(st, Coll(v.kind, v.ops, thawed=True))
        if isinstance(v, ObjV):
            return self.new(st, Inst(v.cls, {k: self.thaw(x, st) for k, x in v.attrs}))
        return v

    # ------------------------------------------------------------ dict access
    def slot_value(self, s, st):
        r = self.rec(st, s.d)
        ops = []
        for o in r.ops:
            if o[0] == "aug" and o[4] == "touch":
                continue
            if o[0] == "aug":
                b, c, k, e = refresh(o[1], o[2], o[3], o[5])
                cond = f_and(c, mkeq(k, s.key))
                if not b and cond not in (T, F):
                    cond = {True: T, False: F}.get(self.decide(cond, st), cond)
                if cond != F:
                    ops.append((o[4], b, cond, e))
            elif o[0] == "set":
                b, c, k, e = refresh(o[1], o[2], o[3], o[4])
                cond = f_and(c, mkeq(k, s.key))
                if not b and cond not in (T, F):
                    cond = {True: T, False: F}.get(self.decide(cond, st), cond)
                if cond == F:
                    continue
                if b:
                    alts = self.dec(st).solve(b, cond)
                    if alts is not None and len(alts) == 1 and not alts[0][2] and self.dec(st).decide(alts[0][1]) is True:
                        b, cond, e = (), T, subst(e, alts[0][0])
                if cond == T and not b:
                    ops = []                       # replaces what was stored before
                elif ops:
                    raise Unsupported("slot value")
                if isinstance(e, (CollV, Tup)):
                    sub = [("+", (), T, x) for x in e.items] if isinstance(e, Tup) else list(e.ops)
                    if cond != T or b:
                        sub = [(x[0], b + x[1], f_and(cond, x[2]), x[3]) for x in sub if x[0] == "+"]
                    ops.extend(sub)
                else:
                    raise Unsupported("slot value")
            elif o[0] == "del":
                b, c, k = refresh(o[1], o[2], o[3])
                cond = mkex(b, f_and(c, mkeq(k, s.key)))
                if cond not in (T, F):
                    cond = {True: T, False: F}.get(self.decide(cond, st), cond)
                if cond == F:
                    continue
                if cond != T:
                    raise Unsupported("slot of modified dict")
                ops = []
            else:
                raise Unsupported("slot of modified dict")
        return CollV(s.kind, ops)

    def dict_get(self, ref, key, st, node=None, missing=True):
        """Outcomes [(state, value or Exc)] of d[key]."""
        r = self.rec(st, ref)
        if r.default is not None:
            k = r.default
            if k in ("set", "list"):
                if all(o[0] in ("aug", "set") or o[0] == "carried" and len(o) > 2 and o[2] for o in r.ops):
                    return [(st, SlotRef(ref, key, k))]
                raise Unsupported("defaultdict", node)
        outs = []
        todo = [st]
        for o in reversed(r.ops):
            nxt = []
            for s in todo:
                if o[0] == "carried":
                    if len(o) > 2 and o[2]:          # earlier iterations only change stored collections
                        nxt.append(s)
                    else:
                        outs.append((s, P(Term("dictread", o[1], key))))
                    continue
                if o[0] == "aug" and r.default is None:      # changes a stored collection, adds no key
                    nxt.append(s)
                    continue
                b, c, k = refresh(o[1], o[2], o[3])
                f = mkex(b, f_and(c, mkeq(k, key)))
                for s2, hit in self.branch(f, s):
                    if not hit:
                        nxt.append(s2)
                    elif o[0] == "del":
                        outs.append((s2, Exc("KeyError", (key,), node)))
                    elif o[0] == "aug":
                        outs.append((s2, SlotRef(ref, key, "list" if o[4] == "+" else "set")))
                    else:
                        b, c, k, v = refresh(o[1], o[2], o[3], o[4])
                        if b:
                            alts = self.dec(s2).solve(b, f_and(c, mkeq(k, key)))
                            if not alts or any(a[2] or a[0] != alts[0][0] for a in alts):
                                raise Unsupported("dict lookup", node)
                            v = subst(v, alts[0][0])
                        if any(x[0] == "aug" for x in r.ops):
                            outs.append((s2, SlotRef(ref, key, v.kind if isinstance(v, CollV) else "list")))
                        elif isinstance(v, CollV) and v.kind in ("list", "set"):
                            outs.append((s2, SlotRef(ref, key, v.kind)))
                        else:
                            outs.append((s2, v))
            todo = nxt
        for s in todo:
            if r.default is not None:
                outs.append((s, self.default_value(r.default)))
            elif missing:
                outs.append((s, Exc("KeyError", (key,), node)))
            else:
                outs.append((s, None))
        return outs

    @staticmethod
    def default_value(d):
        if d == "int":
            return ZERO
        raise Unsupported("default factory")

    # ------------------------------------------------------------ boards
    def board_class(self):
        return self.glob("sudokutools.sudoku", "Sudoku")

    def setup_boards(self):
        """Learn from the class itself where numbers and candidates are stored and what a new sudoku's attributes are."""
        if self.templates is not None:
            return self.templates
        cls = self.board_class()
        if not isinstance(cls, ClassV):
            raise Unsupported("class Sudoku not found")
        self.templates = {}
        self.cls = cls
        # storage places read by [row, col] and get_candidates
        row, col = Var("row", ZERO, N), Var("col", ZERO, N)
        st = State()
        init = self.construct(cls, Tup([PW, PH]), st, raw=True)
        self.init_state, self.init_rec = st, st.heap[init.id]
        self.raw = True
        try:
            for kind, meth, args in (("n", "__getitem__", [Tup([P(row), P(col)])]), ("c", "get_candidates", [P(row), P(col)])):
                s = State()
                b = self.new(s, Board(None, dict(self.init_rec.attrs), cls=cls))
                outs = list(self.call(BoundV(cls.find(meth), b), args, {}, s))
                vals = [v for _s, v in outs if not isinstance(v, Exc)]
                if len(vals) != 1 or not isinstance(vals[0], StoreV):
                    raise Unsupported("%s is not a plain storage access" % meth)
                self.templates[kind] = (vals[0].name, vals[0].path, row, col)
        finally:
            self.raw = False
        self.storage_names = set(t[0] for t in self.templates.values())
        return self.templates

    def setup_boards_or(self, rep):
        """setup_boards, or an undecided obligation."""
        try:
            self.setup_boards()
        except Unsupported as e:
            self.templates = None
            rep.undecided("storage", "Sudoku", "storage of the class not understood: %s" % e)

    def construct(self, cls, size, st, raw=False):
        b = self.new(st, Inst(cls, {}))
        outs = [(s, v) for s, v in self.call_func(cls.find("__init__"), [b, size], {}, st)]
        good = [(s, v) for s, v in outs if not isinstance(v, Exc)]
        if len(good) != 1:
            raise Unsupported("Sudoku() has several outcomes")
        s = good[0][0]
        st.heap, st.frames, st.pc, st.ev = s.heap, s.frames, s.pc, s.ev
        return b

    def generic_board(self, st, name):
        """An arbitrary sudoku of arbitrary shape."""
        self.setup_boards()
        attrs = {k: v for k, v in self.init_rec.attrs.items() if k not in self.storage_names}
        for k, v in list(attrs.items()):
            if isinstance(v, Ref):
                r = self.init_state.heap.get(v.id)
                if isinstance(r, Coll):
                    attrs[k] = self.new(st, Coll(r.kind, r.ops))
                else:
                    raise Unsupported("attribute %s of Sudoku" % k)
        return self.new(st, Board(name, attrs, cls=self.cls))

    def new_board(self, cls, args, kwargs, st, node):
        self.setup_boards()
        size = kwargs.get("box_size", args[0] if args else None)
        if len(args) + len(kwargs) > 1 or (kwargs and "box_size" not in kwargs):
            raise Unsupported("Sudoku(...)", node)
        inst = self.new(st, Inst(cls, {}))
        for s, v in self.call_func(cls.find("__init__"), [inst] + ([size] if size is not None else []), {}, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            attrs = {k: x for k, x in s.heap[inst.id].attrs.items() if k not in self.storage_names}
            s.heap[inst.id] = Board(("new", inst.id), attrs, new=True, cls=cls)
            yield s, inst

    def place(self, sv, st):
        """(kind, row, col) of a complete storage place, or None."""
        for kind, (name, path, row, col) in self.templates.items():
            if name != sv.name or len(path) != len(sv.path):
                continue
            # solve path(row, col) = given path
            f = f_and(*[mkeq(a, b) for a, b in zip(path, sv.path)])
            r2, c2 = Var("row", ZERO, None), Var("col", ZERO, None)
            if len(path) == 2 and path == (P(row), P(col)):
                return kind, sv.path[0], sv.path[1]
            if len(path) == 2 and path == (P(col), P(row)):
                return kind, sv.path[1], sv.path[0]
            if len(path) == 1 and path[0] == Tup([P(row), P(col)]) and isinstance(sv.path[0], Tup):
                return kind, sv.path[0].items[0], sv.path[0].items[1]
            if len(path) == 1 and isinstance(path[0], Poly) and path[0] == P(row) * N + P(col):
                q, r = divmod_poly(P(sv.path[0]), N)
                return kind, q, r
            raise Unsupported("storage place %r" % (sv,))
        return None

    def store_read(self, sv, st, node=None):
        p = self.place(sv, st)
        if p is None:
            raise Unsupported("storage access %r" % (sv,), node)
        return self.bread(sv.board, p[0], Tup(p[1:]), st, node)

    def base_value(self, b, kind, f):
        if b.new:
            return ZERO if kind == "n" else CollV("frozenset", [])
        t = Term("num" if kind == "n" else "cand", b.base, f.items[0], f.items[1])
        return P(t) if kind == "n" else CollV("frozenset", [("all", t)])

    def bread(self, ref, kind, f, st, node=None):
        """Value of a field through the log of writes."""
        b = self.rec(st, ref)
        if not isinstance(b, Board):
            raise Unsupported("not a sudoku", node)
        d = self.dec(st)
        val = None
        pend = []        # (cond, value) newest first
        done = False
        for w in reversed(b.log):
            if w[0] == "carried":
                if kind in w[2] and not self.skip_carried(w, kind, f, st):
                    raise Unsupported("read of a field an earlier iteration may have written", node)
                continue
            if (w[0] == "n") != (kind == "n"):
                continue
            bs, c, g, v = refresh(w[1], w[2], w[3], w[4])
            e = f_and(c, mkeq(g, f))
            alts = d.solve(bs, e) if bs else [({}, e, ())]
            if alts is None:
                raise Unsupported("read through a loop's writes", node)
            live = []
            for mp, res, left in alts:
                r = d.decide_left(res, left) if left else d.decide(res)
                if r is False:
                    continue
                live.append((mp, res, left, r))
            if not live:
                continue
            if len(live) > 1 or live[0][2] and mentions(v, lambda a: a in live[0][2]):
                vs = set(repr(subst(v, mp)) for mp, _r, _l, _x in live)
                if len(vs) > 1:
                    raise Unsupported("read through ambiguous writes", node)
            mp, res, left, r = live[0]
            v2 = subst(v, mp)
            if w[0] == "rm":
                pend.append((T if r is True else (mkex(left, res) if left else res), "rm", v2))
                continue
            if r is True:
                pend.append((T, "set", v2))
                done = True
                break
            pend.append((mkex(left, res) if left else res, "set", v2))
        if not done:
            pend.append((T, "set", self.base_value(b, kind, f)))
        for cond, how, v in reversed(pend):
            if how == "set":
                if cond == T:
                    val = v
                elif kind == "n":
                    val = mkite(cond, v, val)
                else:
                    val = ite_coll(cond, v, val)
            else:
                ops = list(val.ops) if isinstance(val, CollV) else [("+", (), T, x) for x in val.items]
                for x in removed_ops(v):
                    ops.append(("-", x[1], f_and(cond, x[2]), x[3]))
                val = CollV("frozenset", ops)
        if kind == "c" and isinstance(val, CollV) and val.kind != "frozenset":
            val = CollV("frozenset", val.ops)
        return val

    def skip_carried(self, w, kind, f, st):
        """An earlier iteration cannot have written field f: the only iteration writing it is the current one."""
        for (k, bs, c, g, cur) in w[3]:
            if (k == "n") != (kind == "n"):
                continue
            b2, c2, g2 = refresh(bs, c, g)
            d = self.dec(st)
            alts = d.solve(b2, f_and(c2, mkeq(g2, f)))
            if alts is None:
                return False
            for mp, res, left in alts:
                if d.decide(res) is False:
                    continue
                if left:
                    return False
                for old, new in zip(cur, b2):
                    # expand() may have split new into digits; compare values
                    val = subst(P(new), mp)
                    if mkeq(val, P(old)) != T and d.decide(mkeq(val, P(old))) is not True:
                        return False
        return True

    def bwrite(self, ref, kind, f, v, st, node=None):
        b = self.rec(st, ref)
        nb = Board(b.base, b.attrs, b.log + ((kind, (), T, f, v),), b.new, b.cls)
        st.heap[ref.id] = nb

    def cands_value(self, v, st, node=None):
        c = self.coll(v, st, node)
        if isinstance(c, Tup):
            return CollV("frozenset", dedupe([("+", (), T, x) for x in c.items]))
        return CollV("frozenset", c.ops)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        if not stmts:
            yield st, "n", None
            return
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == len(stmts):
                yield s, "n", None
                continue
            for s2, k, v in self.exec(stmts[i], s, fr):
                if k == "n":
                    todo.append((s2, i + 1))
                else:
                    yield s2, k, v

    def exec(self, n, st, fr):
        if self.budget != BUDGET[0]:
            self.budget = BUDGET[0]
            self.total += self.steps
            self.steps = 0
        self.steps += 1
        if self.steps > self.limit or self.total > self.limit * 40:
            raise Unsupported("too many paths", n)
        self.visited.add(n)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(n).__name__, n)
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        yield st, "n", None

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            yield st, "n", None
            return
        for s, v in self.ev(n.value, st, fr):
            yield (s, "raise", v) if isinstance(v, Exc) else (s, "n", None)

    def s_Return(self, n, st, fr):
        if n.value is None:
            yield st, "ret", NONE
            return
        for s, v in self.ev(n.value, st, fr):
            yield (s, "raise", v) if isinstance(v, Exc) else (s, "ret", v)

    def s_Break(self, n, st, fr):
        yield st, "brk", None

    def s_Continue(self, n, st, fr):
        yield st, "cont", None

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.frames[fr.fid].get("$exc")
            if cur is None:
                raise Unsupported("bare raise", n)
            yield st, "raise", cur
            return
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Exc):
                yield s, "raise", v
            elif isinstance(v, BuiltinV):
                yield s, "raise", Exc(v.name, (), n)
            elif isinstance(v, Term) and v.op == "exc":
                yield s, "raise", Exc(v.args[0], v.args[1:], n)
            elif isinstance(v, ClassV):
                b = v.extbase()
                yield s, "raise", Exc(b.name if b else v.name, (), n)
            elif isinstance(v, Ref) and isinstance(self.rec(s, v), Inst):
                b = self.rec(s, v).cls.extbase()
                yield s, "raise", Exc(b.name if b else "Exception", (), n)
            else:
                raise Unsupported("raise", n)

    def s_Assert(self, n, st, fr):
        for s, f in self.cond(n.test, st, fr):
            if isinstance(f, Exc):
                yield s, "raise", f
                continue
            for s2, b in self.branch(f, s):
                if b:
                    yield s2, "n", None
                else:
                    yield s2, "raise", Exc("AssertionError", (), n)

    def s_Import(self, n, st, fr):
        for a in n.names:
            st.set(fr.fid, (a.asname or a.name).split(".")[0], self.import_value(n, a, fr.mod))
        yield st, "n", None

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fr):
        f = self.make_func(n, fr, st, fr.cls if fr.func is not None and False else None)
        f.ctxcls = fr.cls
        for d in n.decorator_list:
            raise Unsupported("decorator", n)
        st.set(fr.fid, n.name, f)
        yield st, "n", None

    def s_If(self, n, st, fr):
        for s, f in self.cond(n.test, st, fr):
            if isinstance(f, Exc):
                yield s, "raise", f
                continue
            for s2, b in self.branch(f, s):
                yield from self.block(n.body if b else n.orelse, s2, fr)

    def s_Assign(self, n, st, fr):
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                yield s, "raise", v
                continue
            yield from self.assign_all(n.targets, v, s, fr)

    def assign_all(self, targets, v, st, fr):
        if not targets:
            yield st, "n", None
            return
        for s, k, x in self.assign(targets[0], v, st, fr):
            if k != "n":
                yield s, k, x
            else:
                yield from self.assign_all(targets[1:], v, s, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            yield st, "n", None
            return
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc):
                yield s, "raise", v
            else:
                yield from self.assign(n.target, v, s, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.set(self.home(t.id, fr, st), t.id, v)
            yield st, "n", None
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                c = v if isinstance(v, Tup) else self.coll(v, st, t)
                items = as_concrete(c)
                i, m = stars[0], len(t.elts) - 1
                if items is None:
                    raise Unsupported("starred target", t)
                if len(items) < m:
                    vs = Exc("ValueError", (), t)
                else:
                    mid = items[i:len(items) - (m - i)]
                    vs = items[:i] + [self.newcoll(st, "list", [("+", (), T, x) for x in mid])] + items[len(items) - (m - i):]
            else:
                vs = self.unpack(v, len(t.elts), st, t)
            if isinstance(vs, Exc):
                yield st, "raise", vs
                return
            todo = [(st, 0)]
            while todo:
                s, i = todo.pop()
                if i == len(t.elts):
                    yield s, "n", None
                    continue
                el = t.elts[i].value if isinstance(t.elts[i], ast.Starred) else t.elts[i]
                for s2, k, x in self.assign(el, vs[i], s, fr):
                    if k == "n":
                        todo.append((s2, i + 1))
                    else:
                        yield s2, k, x
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc):
                    yield s, "raise", o
                    continue
                yield from self.setattr(o, self.mangle(t.attr, fr.cls), v, s, t)
        elif isinstance(t, ast.Subscript):
            for s, ov in self.evs([t.value, t.slice], st, fr):
                if isinstance(ov, Exc):
                    yield s, "raise", ov
                    continue
                yield from self.setitem(ov[0], ov[1], v, s, t)
        else:
            raise Unsupported("assignment target", t)

    def home(self, name, fr, st):
        """Frame a name is assigned in (nonlocal support)."""
        if fr.func is not None:
            for n in declarations(fr.func.node):
                if isinstance(n, ast.Nonlocal) and name in n.names:
                    for p in fr.parents:
                        if name in st.frames.get(p, {}):
                            return p
                if isinstance(n, ast.Global) and name in n.names:
                    raise Unsupported("global statement", n)
        return fr.fid

    def unpack(self, v, n, st, node):
        if isinstance(v, Tup):
            if len(v.items) != n:
                return Exc("ValueError", (), node)
            return list(v.items)
        if isinstance(v, Ref):
            c = self.coll(v, st, node)
            if all(o[0] == "+" and not o[1] and o[2] == T for o in c.ops):
                if len(c.ops) != n:
                    return Exc("ValueError", (), node)
                return [o[3] for o in c.ops]
        if isinstance(v, CollV) and all(o[0] == "+" and not o[1] and o[2] == T for o in v.ops) and len(v.ops) == n:
            return [o[3] for o in v.ops]
        if isinstance(v, Term) or (isinstance(v, Poly) and v.single() is not None):
            a = v.single() if isinstance(v, Poly) else v
            return [P(Term("item", a, i)) for i in range(n)]
        raise Unsupported("unpacking %r" % (v,), node)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Inst):
                a = dict(r.attrs)
                a[name] = v
                st.heap[o.id] = Inst(r.cls, a)
                st.ev = st.ev + (("setattr", o, name, v, node),)
                yield st, "n", None
                return
            if isinstance(r, Board):
                raise Unsupported("attribute %s of a sudoku assigned" % name, node)
        if isinstance(o, Term):
            st.ev = st.ev + (("setattr", o, name, v, node),)
            yield st, "n", None
            return
        raise Unsupported("attribute assignment", node)

    def setitem(self, o, key, v, st, node):
        if isinstance(o, StoreV):
            sv = StoreV(o.board, o.name, o.path + (key,))
            if self.raw:
                st.ev = st.ev + (("store", sv, v),)
                yield st, "n", None
                return
            p = self.place(sv, st)
            if p is None:
                raise Unsupported("storage write", node)
            self.bwrite(sv.board, "n" if p[0] == "n" else "c", Tup(p[1:]),
                        v if p[0] == "n" else self.cands_value(v, st, node), st, node)
            yield st, "n", None
            return
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Board):
                f = self.find_method(r.cls, "__setitem__")
                for s, x in self.call(BoundV(f, o), [key, v], {}, st, node):
                    yield (s, "raise", x) if isinstance(x, Exc) else (s, "n", None)
                return
            if isinstance(r, DictRec):
                if r.kind == "table":
                    st.heap[o.id] = table_set(r, key, v, node)
                    yield st, "n", None
                    return
                if r.default in ("set", "list") or isinstance(v, Ref) and isinstance(self.rec(st, v), Coll):
                    v = self.coll_snapshot(v, st, node)
                st.heap[o.id] = DictRec(r.ops + (("set", (), T, key, v),), r.default, r.kind)
                yield st, "n", None
                return
            if isinstance(r, Inst):
                f = r.cls.find("__setitem__")
                if f is not None:
                    for s, x in self.call(BoundV(f, o), [key, v], {}, st, node):
                        yield (s, "raise", x) if isinstance(x, Exc) else (s, "n", None)
                    return
            if isinstance(r, Coll) and r.kind == "list" and isinstance(key, Poly) and key.isconst() and \
                    all(x[0] == "+" and not x[1] and x[2] == T for x in r.ops) and -len(r.ops) <= key.cval() < len(r.ops):
                ops = list(r.ops)
                ops[key.cval()] = ("+", (), T, v)
                st.heap[o.id] = Coll("list", ops)
                yield st, "n", None
                return
        if isinstance(o, Term):
            st.ev = st.ev + (("setitem", o, key, v, node),)
            yield st, "n", None
            return
        raise Unsupported("item assignment to %r" % (o,), node)

    def coll_snapshot(self, v, st, node):
        """A collection stored in a dict: its contents (later changes through the dict are recorded as 'aug')."""
        c = self.coll(v, st, node)
        if isinstance(v, Ref) and v.id in st.heap and isinstance(st.heap[v.id], Coll):
            r = st.heap[v.id]
            st.heap[v.id] = Coll(r.kind, r.ops, thawed=True)     # the same object in the dict: no changes through the old name
        if isinstance(c, CollV):
            return CollV(c.kind, c.ops)
        return c

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            for s, v in self.ev(n.value, st, fr):
                if isinstance(v, Exc):
                    yield s, "raise", v
                    continue
                for s2, cur in self.name(t.id, s, fr, t):
                    if isinstance(cur, Exc):
                        yield s2, "raise", cur
                        continue
                    for s3, r in self.augop(n.op, cur, v, s2, n, fr):
                        if isinstance(r, Exc):
                            yield s3, "raise", r
                            continue
                        s3.set(self.home(t.id, fr, s3), t.id, r)
                        yield s3, "n", None
        elif isinstance(t, ast.Subscript):
            for s, ov in self.evs([t.value, t.slice, n.value], st, fr):
                if isinstance(ov, Exc):
                    yield s, "raise", ov
                    continue
                o, key, v = ov
                if isinstance(o, Ref) and isinstance(self.rec(s, o), DictRec) and self.rec(s, o).default == "int":
                    r = self.rec(s, o)
                    s.heap[o.id] = DictRec(r.ops + (("aug", (), T, key, "count", v),), "int", r.kind)
                    yield s, "n", None
                    continue
                for s2, cur in self.getitem(o, key, s, t):
                    if isinstance(cur, Exc):
                        yield s2, "raise", cur
                        continue
                    for s3, r in self.augop(n.op, cur, v, s2, n, fr):
                        if isinstance(r, Exc):
                            yield s3, "raise", r
                            continue
                        if r is cur and isinstance(r, (Ref, SlotRef)):
                            yield s3, "n", None
                            continue
                        yield from self.setitem(o, key, r, s3, t)
        elif isinstance(t, ast.Attribute):
            for s, ov in self.evs([t.value, n.value], st, fr):
                if isinstance(ov, Exc):
                    yield s, "raise", ov
                    continue
                o, v = ov
                name = self.mangle(t.attr, fr.cls)
                for s2, cur in self.getattr(o, name, s, t):
                    if isinstance(cur, Exc):
                        yield s2, "raise", cur
                        continue
                    for s3, r in self.augop(n.op, cur, v, s2, n, fr):
                        if isinstance(r, Exc):
                            yield s3, "raise", r
                            continue
                        yield from self.setattr(o, name, r, s3, t)
        else:
            raise Unsupported("augmented target", n)

    def augop(self, op, cur, v, st, node, fr):
        """In-place operators mutate lists and sets."""
        if isinstance(cur, (Ref, SlotRef)):
            kind = cur.kind if isinstance(cur, SlotRef) else getattr(self.rec(st, cur), "kind", None)
            meth = {"list": {ast.Add: "extend"}, "set": {ast.BitOr: "update", ast.Sub: "difference_update",
                                                        ast.BitAnd: "intersection_update"}}.get(kind, {}).get(type(op))
            if meth:
                from . import symlib
                for s, x in symlib.method(self, cur, meth, [v], {}, st, node):
                    yield s, (x if isinstance(x, Exc) else cur)
                return
        yield from self.binop(op, cur, v, st, node)

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if not isinstance(t, ast.Subscript):
                raise Unsupported("del", n)
        if len(n.targets) != 1:
            raise Unsupported("del", n)
        t = n.targets[0]
        if isinstance(t.slice, ast.Slice):
            parts = [x for x in (t.slice.lower, t.slice.upper, t.slice.step) if x is not None]
            for s, vs in self.evs([t.value] + parts, st, fr):
                if isinstance(vs, Exc):
                    yield s, "raise", vs
                    continue
                it = iter(vs[1:])
                sl = [None if x is None else next(it) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                self.del_items(vs[0], slice(*[self.const_int(x, n) for x in sl]), s, n)
                yield s, "n", None
            return
        for s, ov in self.evs([t.value, t.slice], st, fr):
            if isinstance(ov, Exc):
                yield s, "raise", ov
                continue
            o, key = ov
            if isinstance(o, Ref) and isinstance(self.rec(s, o), DictRec):
                r = self.rec(s, o)
                for s2, x in self.dict_get(o, key, s, n):
                    if isinstance(x, Exc):
                        yield s2, "raise", x
                        continue
                    r = self.rec(s2, o)
                    s2.heap[o.id] = table_set(r, key, None, n) if r.kind == "table" else \
                        DictRec(r.ops + (("del", (), T, key),), r.default, r.kind)
                    yield s2, "n", None
                continue
            if self.del_items(o, self.const_int(key, n), s, n):
                yield s, "n", None
            else:
                yield s, "raise", Exc("IndexError", (), n)

    def const_int(self, x, n):
        if x is None or isinstance(x, K) and x.v is None:
            return None
        if isinstance(x, Poly) and x.isconst():
            return x.cval()
        raise Unsupported("del", n)

    def del_items(self, o, key, st, n):
        """del o[key] on a list of known length; False when there is no such item."""
        r = self.rec(st, o) if isinstance(o, Ref) else None
        if not isinstance(r, Coll) or r.kind != "list":
            raise Unsupported("del", n)
        from . import symlib
        symlib.frozen_ok(self, r, n)
        xs = symlib.as_concrete(r.val())
        if xs is None:
            raise Unsupported("del", n)
        xs = list(xs)
        if isinstance(key, int) and not -len(xs) <= key < len(xs) or key is None:
            return False
        del xs[key]
        st.heap[o.id] = Coll(r.kind, [("+", (), T, y) for y in xs], r.thawed)
        return True

    def s_Try(self, n, st, fr):
        for s, k, v in self.block(n.body, st, fr):
            if k == "raise":
                yield from self.final(n, self.handle(n, s, v, fr), fr)
            elif k == "n":
                yield from self.final(n, self.block(n.orelse, s, fr), fr)
            else:
                yield from self.final(n, iter([(s, k, v)]), fr)

    def handle(self, n, st, exc, fr):
        for h in n.handlers:
            names = self.handler_names(h, fr, st)
            if names is None or any(exc_matches(exc.name, x) for x in names):
                s = st.fork()
                s.set(fr.fid, "$exc", exc)
                if h.name:
                    s.set(fr.fid, h.name, Term("exc", exc.name, *[a if hash_ok(a) else repr(a) for a in exc.args]))
                yield from self.block(h.body, s, fr)
                return
            if exc.name in ("Exception", "BaseException"):
                # an unknown exception may or may not match
                s = st.fork()
                yield from self.block(h.body, s, fr)
        yield st, "raise", exc

    def handler_names(self, h, fr, st):
        if h.type is None:
            return None
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in els:
            v = self.one(e, st.fork(), fr)
            if isinstance(v, (BuiltinV, ExtV)):
                out.append(v.name.split(".")[-1])
            elif isinstance(v, ClassV):
                out.append(v.name)
            elif isinstance(v, Tup):
                out.extend(x.name for x in v.items if isinstance(x, BuiltinV))
            else:
                raise Unsupported("exception handler", h)
        return out

    def final(self, n, outs, fr):
        if not n.finalbody:
            yield from outs
            return
        for s, k, v in outs:
            for s2, k2, v2 in self.block(n.finalbody, s, fr):
                if k2 == "n":
                    yield s2, k, v
                else:
                    yield s2, k2, v2

    def s_While(self, n, st, fr):
        if ("while", id(n)) in self.stubs:
            yield from self.stubs[("while", id(n))](self, n, st, fr)
            return
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i > 12:
                raise Unsupported("unbounded while loop", n)
            for s2, f in self.cond(n.test, s, fr):
                if isinstance(f, Exc):
                    yield s2, "raise", f
                    continue
                r = self.decide(f, s2)
                if r is None:
                    raise Unsupported("while loop with unknown condition", n)
                if r is False:
                    yield from self.block(n.orelse, s2, fr)
                    continue
                for s3, k, v in self.block(n.body, s2, fr):
                    if k in ("n", "cont"):
                        todo.append((s3, i + 1))
                    elif k == "brk":
                        yield s3, "n", None
                    else:
                        yield s3, k, v

    def s_With(self, n, st, fr):
        """Only for objects from outside (files), whose __exit__ lets exceptions pass."""
        def go(i, st):
            if i == len(n.items):
                yield from self.block(n.body, st, fr)
                return
            for s, v in self.ev(n.items[i].context_expr, st, fr):
                if isinstance(v, Exc):
                    yield s, "raise", v
                elif not isinstance(v, (Term, ObjV)):
                    raise Unsupported("with", n)
                elif n.items[i].optional_vars is None:
                    yield from go(i + 1, s)
                else:
                    for s2, k, x in self.assign(n.items[i].optional_vars, v, s, fr):
                        if k != "n":
                            yield s2, k, x
                        else:
                            yield from go(i + 1, s2)
        yield from go(0, st)

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        for s, it in self.ev(n.iter, st, fr):
            if isinstance(it, Exc):
                yield s, "raise", it
                continue
            for s1, c in self.iterate(it, s, n.iter):
                if isinstance(c, Exc):
                    yield s1, "raise", c
                    continue
                items = self.items_of(c, s1, n.iter)
                yield from self.loop(n, items, 0, s1, fr)

    def iterate(self, v, st, node=None):
        """Run generators: outcomes (state, collection)."""
        from . import symlib
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Gen):
                yield from self.run_gen(v, st, node)
                return
            if isinstance(r, Board):
                f = r.cls.find("__iter__")
                for s, g in self.call(BoundV(f, v), [], {}, st, node):
                    if isinstance(g, Exc):
                        yield s, g
                    else:
                        yield from self.iterate(g, s, node)
                return
            if isinstance(r, Inst):
                f = r.cls.find("__iter__")
                if f is None:
                    raise Unsupported("iteration over an instance", node)
                for s, g in self.call(BoundV(f, v), [], {}, st, node):
                    if isinstance(g, Exc):
                        yield s, g
                    else:
                        yield from self.iterate(g, s, node)
                return
            if isinstance(r, DictRec) and any(o[0] == "del" for o in r.ops):
                entries = symlib.dict_entries(r)
                states = symlib.live_entries(self, r, st) if entries is None else [(st, entries)]
                if states is not None:
                    for s, entries in states:
                        yield s, CollV("set", [("+", (), T, k) for k, _v in entries])
                    return
        yield st, self.coll(v, st, node)

    def run_gen(self, ref, st, node):
        g = self.rec(st, ref)
        if g.coll is not None:
            c = g.coll
            if g.pos:
                c = rest_of(c, g.pos)
            s = st
            s.heap[ref.id] = Gen(g.func, g.env, CollV("gen", []), 0)
            yield s, c
            return
        for s, c, exc in self.gen_body(ref, st, node):
            s.heap[ref.id] = Gen(g.func, g.env, CollV("gen", []), 0)
            yield s, (exc if exc is not None else c)

    def gen_body(self, ref, st, node):
        """(state, CollV of yielded values, exception or None)"""
        g = self.rec(st, ref)
        key = ("yields", next(_ids))
        mark = next(_ids)
        outer = st.ev
        s0 = st.fork()
        s0.ev = ()
        for s, v in self.run_body(g.func, g.env, s0, node, gen=True):
            ys = []
            rest = []
            for e in s.ev:
                if e[0] == "yield":
                    ys.append(("+", e[1], e[2], e[3]))
                else:
                    rest.append(e)
            s.ev = outer + tuple(rest)
            yield s, CollV("gen", ys), (v if isinstance(v, Exc) else None)

    def merged(self, outs, before):
        """Two paths that differ in one condition and leave the same behind become one."""
        if len(outs) != 2 or any(k not in ("n", "cont") for _, k, _ in outs):
            return outs
        a, b = outs[0][0], outs[1][0]
        n = len(before.pc)
        fa, fb = a.pc[n:], b.pc[n:]
        if a.pc[:n] != before.pc or b.pc[:n] != before.pc or len(fa) != 1 or len(fb) != 1 or fa[0] != fnot(fb[0]):
            return outs
        if a.ev != b.ev or set(a.heap) != set(before.heap) or set(b.heap) != set(before.heap) or \
                any(a.frames[k] != b.frames[k] for k in before.frames):
            return outs
        new = a.fork()
        new.frames = {k: x for k, x in a.frames.items() if k in before.frames}      # the frames of calls that have ended
        for k, x in a.heap.items():
            y = b.heap[k]
            if x is y:
                continue
            if not isinstance(x, Board) or not isinstance(y, Board) or len(x.log) != len(y.log) or \
                    (x.base, x.attrs, x.new, x.cls) != (y.base, y.attrs, y.new, y.cls):
                return outs
            log = []
            for p, q in zip(x.log, y.log):
                if p == q:
                    log.append(p)
                elif p[:-1] == q[:-1] and p[0] == "n" and not p[1] and self.decide(mkeq(p[-1], q[-1]), a) is True:
                    log.append(q)
                elif p[:-1] == q[:-1] and p[0] == "n" and not p[1] and self.decide(mkeq(p[-1], q[-1]), b) is True:
                    log.append(p)
                else:
                    return outs
            new.heap[k] = Board(x.base, x.attrs, log, x.new, x.cls)
        new.pc = before.pc
        return [(new,) + outs[0][1:]]

    def loop(self, n, items, i, st, fr):
        """Execute the loop body for items[i:]."""
        todo = [(st, i)]
        while todo:
            s, i = todo.pop()
            if i == len(items):
                yield from self.block(n.orelse, s, fr)
                continue
            bs, cond, el = items[i]
            if not bs:
                for s1, b in self.branch(cond, s):
                    if not b:
                        todo.append((s1, i + 1))
                        continue
                    e1 = self.thaw(el, s1)
                    for s2, k, v in self.assign(n.target, e1, s1, fr):
                        if k != "n":
                            yield s2, k, v
                            continue
                        outs = self.block(n.body, s2, fr)
                        if self.merging:
                            outs = self.merged(list(outs), s2)
                        for s3, k3, v3 in outs:
                            if k3 in ("n", "cont"):
                                todo.append((s3, i + 1))
                            elif k3 == "brk":
                                yield s3, "n", None
                            else:
                                yield s3, k3, v3
            else:
                for s2, k, v in self.family(n, bs, cond, el, s, fr):
                    if k == "n":
                        todo.append((s2, i + 1))
                    elif k == "brk":
                        yield s2, "n", None
                    else:
                        yield s2, k, v

    def family(self, n, bs, cond, el, st, fr):
        """One generic iteration of a loop over a family, lifted to all of its elements."""
        bs, cond, el = refresh(bs, cond, el)
        if self.decide(mkex(bs, cond), st) is False:
            yield st, "n", None
            return
        names = assigned_names(n.body) | assigned_names([ast.For(target=n.target, iter=n.iter, body=[], orelse=[])])
        changed, boards, dkinds = {}, {}, {}
        nontext, moved = set(), set()
        for attempt in range(6):
            mark = next(_ids)
            s0 = st.fork()
            carried = {}
            for nm in sorted(names):
                fid = self.home(nm, fr, st)
                if nm in st.frames[fid]:
                    carried[nm] = self.carry(nm, st.frames[fid][nm], st)
                    if isinstance(st.frames[fid][nm], (K, StrV)) and nm not in moved:
                        carried[nm] = st.frames[fid][nm]              # kept by every iteration, unless found otherwise below
                    elif is_text(st.frames[fid][nm]) and nm not in nontext:
                        carried[nm] = StrV([carried[nm]])
                    s0.set(fid, nm, carried[nm])
            for rid in changed:
                r = s0.heap.get(rid) or self.gheap.get(rid)
                if isinstance(r, Coll):
                    s0.heap[rid] = Coll(r.kind, r.ops + (("carried", changed[rid]) if dkinds.get(rid, set()) <= {"+"} else
                                                         ("carried", changed[rid], False, False),), r.thawed)
                elif isinstance(r, DictRec):
                    s0.heap[rid] = DictRec(r.ops + (("carried", changed[rid], dkinds.get(rid) == {"aug"},
                                                     "del" not in dkinds.get(rid, ())),), r.default, r.kind)
                elif isinstance(r, Board):
                    s0.heap[rid] = Board(r.base, r.attrs, r.log + (("carried", changed[rid], boards[rid][0], boards[rid][1]),), r.new, r.cls)
            before = dict(s0.heap)
            npc, nev = len(s0.pc), len(s0.ev)
            s0.add(cond)
            base_pc = s0.pc
            if not s0.feasible():
                yield st, "n", None
                return
            paths = []
            e1 = self.thaw(el, s0)
            for s1, k, v in self.assign(n.target, e1, s0, fr):
                if k != "n":
                    paths.append((s1, k, v))
                    continue
                paths.extend(self.block(n.body, s1, fr))
            new = {}
            nb = {}
            nd = {}
            for s2, k, v in paths:
                for rid, r in s2.heap.items():
                    if rid < mark and r is not before.get(rid) and not (rid in self.gheap and before.get(rid) is None and r is self.gheap[rid]):
                        if isinstance(r, Inst):
                            raise Unsupported("object changed in a loop", n)
                        new[rid] = changed.get(rid) or next(_ids)
                        if isinstance(r, DictRec):
                            old = before.get(rid) or self.gheap.get(rid)
                            nd.setdefault(rid, set()).update(o[0] for o in r.ops[len(old.ops):])
                        if isinstance(r, Coll):
                            old = before.get(rid) or self.gheap.get(rid)
                            kinds = nd.setdefault(rid, set())
                            if tuple(r.ops[:len(old.ops)]) == tuple(old.ops):
                                kinds.update(o[0] for o in r.ops[len(old.ops):])
                            else:
                                kinds.add("rewritten")
                        if isinstance(r, Board):
                            old = before.get(rid)
                            ks, ws = nb.setdefault(rid, (set(), []))
                            pcond = f_and(*[g for g in s2.pc if g not in base_pc])
                            for w in r.log[len(old.log):]:
                                if w[0] == "carried":
                                    raise Unsupported("nested carried writes", n)
                                ks.add("n" if w[0] == "n" else "c")
                                ws.append((w[0], bs + w[1], f_and(cond, w[2]), w[3], bs))
            late = {nm for nm, cv in carried.items() if is_text(cv) and not all(is_text(s2.frames[self.home(nm, fr, st)].get(nm)) for s2, _k, _v in paths)}
            late_moved = {nm for nm, cv in carried.items() if isinstance(cv, (K, StrV)) and nm not in moved and
                          not all(s2.frames[self.home(nm, fr, st)].get(nm) == cv for s2, _k, _v in paths)}
            late -= late_moved
            if not late - nontext and not late_moved and set(new) == set(changed) and {k: v[0] for k, v in nb.items()} == {k: v[0] for k, v in boards.items()} and nd == dkinds:
                break
            nontext |= late
            moved |= late_moved
            dkinds = nd
            changed, boards = new, {k: (v[0], tuple(v[1])) for k, v in nb.items()}
        else:
            raise Unsupported("loop changes do not settle", n)
        normal, exits = [], []
        for s2, k, v in paths:
            if not s2.feasible():
                continue
            pc = f_and(*[g for g in s2.pc if g not in st.pc and g not in conj_list(cond)])
            (normal if k in ("n", "cont") else exits).append((s2, k, v, pc))
        # ---- complete iterations
        exit_f = f_or(*[pc for _s, _k, _v, pc in exits])
        out = st.fork()
        self.lift(out, st, normal, bs, cond, changed, carried, names, mark, nev, fr, n, None)
        if exits:
            ex = mkex(*refresh(bs, f_and(cond, exit_f)))
            r = self.decide(ex, st)
            if r is not True:
                s = out.fork(fnot(ex))
                if s.feasible():
                    yield s, "n", None
        else:
            yield out, "n", None
        # ---- an iteration that leaves the loop
        for s2, k, v, pc in exits:
            uid = next(_ids)
            s = st.fork()
            self.lift(s, st, normal, bs, cond, changed, carried, names, mark, nev, fr, n, ("before", uid))
            # apply the exit path's own changes after the earlier iterations'
            if normal and (changed or any(x[0].ev[nev:] for x in normal)):
                s = self.replay(s, st, s2, before, mark, nev, changed, bs)
            else:
                s = s2
            s.pc = s2.pc
            yield s, ("n" if k == "n" else k), v

    def replay(self, s, st, s2, before, mark, nev, changed, bs):
        """The exit iteration's changes on top of the earlier iterations' (s)."""
        for rid, r in s2.heap.items():
            if rid >= mark:
                s.heap[rid] = r
                continue
            b = before.get(rid)
            if b is r or b is None:
                continue
            cur = s.heap.get(rid)
            if isinstance(r, Coll):
                s.heap[rid] = Coll(r.kind, cur.ops + r.ops[len(b.ops):])
            elif isinstance(r, DictRec):
                s.heap[rid] = DictRec(cur.ops + r.ops[len(b.ops):], r.default, r.kind)
            elif isinstance(r, Board):
                s.heap[rid] = Board(r.base, r.attrs, cur.log + r.log[len(b.log):], r.new, r.cls)
        s.frames = s2.frames
        s.ev = s.ev + s2.ev[nev:]
        return s

    def carry(self, nm, v, st):
        """Value of a variable at the start of an arbitrary iteration."""
        if isinstance(v, Poly):
            return P(Var("carried." + nm))
        if isf(v):
            return ("carry", next(_ids))
        if isinstance(v, CollV):
            return CollV(v.kind, v.ops + (("carried", next(_ids)),))
        if isinstance(v, Ref):
            return v
        if isinstance(v, (FuncV, ClassV, ModV, BoundV, BuiltinV, ExtV)):
            return v
        return Term("carried", nm, next(_ids))

    def lift(self, out, st, normal, bs, cond, changed, carried, names, mark, nev, fr, n, extra):
        """Append the effects of all (or, with extra, some earlier) iterations to state out."""
        ex = T if extra is None else extra
        for rid in changed:
            old = st.heap.get(rid) or self.gheap.get(rid)
            for s2, k, v, pc in normal:
                r = s2.heap[rid]
                pc2, uniq = self.dedupe_guard(pc, changed[rid])
                c = f_and(cond, pc2, ex)
                cur = out.heap.get(rid) or self.gheap.get(rid)
                if isinstance(r, Coll):
                    pre = len(old.ops) + 1
                    if tuple(r.ops[:pre - 1]) != tuple(old.ops):
                        raise Unsupported("collection rewritten in a loop", n)
                    add = []
                    for o in r.ops[pre:]:
                        if o[0] in ("+", "-"):
                            add.append((o[0], bs + o[1], f_and(c, o[2]), self.freeze(o[3], s2, mark)))
                        elif o[0] == "all":
                            v = Var("x", dom=("elem", o[1]))
                            add.append(("+", bs + (v,), c, P(v)))
                        elif o[0] == "-1":
                            add.append(("-1f", bs, f_and(c, o[2]), self.freeze(o[3], s2, mark)))
                        else:
                            raise Unsupported("collection change in a loop", n)
                    out.heap[rid] = Coll(r.kind, cur.ops + tuple(add))
                elif isinstance(r, DictRec):
                    pre = len(old.ops) + 1
                    add = []
                    for o in r.ops[pre:]:
                        if o[0] == "set":
                            add.append(("set", bs + o[1], f_and(c, o[2]), o[3], self.freeze(o[4], s2, mark)))
                        elif o[0] == "aug":
                            add.append(("aug", bs + o[1], f_and(c, o[2]), o[3], o[4], self.freeze(o[5], s2, mark)))
                        elif o[0] == "del":
                            add.append(("del", bs + o[1], f_and(c, o[2]), o[3]))
                        else:
                            raise Unsupported("dict change in a loop", n)
                    out.heap[rid] = DictRec(cur.ops + tuple(add), r.default, r.kind)
                elif isinstance(r, Board):
                    pre = len(old.log) + 1
                    add = [(w[0], bs + w[1], f_and(c, w[2]), w[3], self.freeze(w[4], s2, mark)) for w in r.log[pre:]]
                    out.heap[rid] = Board(r.base, r.attrs, cur.log + tuple(add), r.new, r.cls)
        for s2, k, v, pc in normal:
            pc2 = pc
            for rid in changed:
                pc2, _u = self.dedupe_guard(pc2, changed[rid])
            for e in s2.ev[nev:]:
                if e[0] == "yield":
                    out.ev = out.ev + (("yield", bs + e[1], f_and(cond, pc2, ex, e[2]), self.freeze(e[3], s2, mark), e[4]),)
                else:
                    out.ev = out.ev + (("fam", bs, f_and(cond, pc2, ex), e),)
        for nm in names:
            fid = self.home(nm, fr, st)
            if nm not in carried:
                out.set(fid, nm, Term("last", nm, next(_ids)))
                continue
            init, cv = st.frames[fid][nm], carried[nm]
            finals = [(pc, s2.frames[fid].get(nm), s2) for s2, k, v, pc in normal]
            out.set(fid, nm, self.after(nm, init, cv, finals, bs, cond, mark, ex))

    def after(self, nm, init, cv, finals, bs, cond, mark, ex):
        if all(f == cv for _p, f, _s in finals):
            return init
        if isinstance(cv, Poly) and isinstance(init, Poly):
            val = init
            for pc, f, _s in finals:
                if not isinstance(f, Poly):
                    break
                d = f - cv
                if cv.single() in d.atoms() or not d.isconst():
                    break
                if d.cval():
                    val = val + d * self.count_term(bs, f_and(cond, pc, ex))
            else:
                return val
        if isf(cv) and isf(init):
            ch = [(pc, f) for pc, f, _s in finals if f != cv]
            if all(f == T for _p, f in ch):
                return f_or(init, *[mkex(*refresh(bs, f_and(cond, pc, ex))) for pc, _f in ch])
            if all(f == F for _p, f in ch):
                return f_and(init, *[fnot(mkex(*refresh(bs, f_and(cond, pc, ex)))) for pc, _f in ch])
        if isinstance(cv, CollV) and isinstance(init, CollV):
            ops = list(init.ops)
            for pc, f, s2 in finals:
                if f == cv:
                    continue
                if not isinstance(f, CollV) or f.ops[:len(cv.ops)] != cv.ops:
                    break
                for o in f.ops[len(cv.ops):]:
                    if o[0] not in "+-":
                        break
                    ops.append((o[0], bs + o[1], f_and(cond, pc, ex, o[2]), self.freeze(o[3], s2, mark)))
            else:
                return CollV(init.kind, ops)
        if is_text(init) and isinstance(cv, StrV) and len(bs) == 1 and cond == T and ex == T and len(finals) == 1 and isinstance(finals[0][1], StrV):
            # the characters of a part, added one by one
            add = finals[0][1].parts
            if finals[0][0] == T and len(add) == 2 and add[:1] == cv.parts and isinstance(add[1], Term) and add[1].op == "char" and add[1].args[1] == P(bs[0]) and \
                    bs[0].lo == ZERO and bs[0].hi == P(Term("len", StrV([add[1].args[0]]))):
                return StrV((list(init.parts) if isinstance(init, StrV) else [init.v]) + [add[1].args[0]])
        last = Term("last", nm, next(_ids))
        return StrV([last]) if is_text(init) and is_text(cv) else last

    @staticmethod
    def count_term(bs, cond):
        n = coll_len(CollV("list", [("+", bs, cond, NONE)]))
        return n

    @staticmethod
    def dedupe_guard(pc, uid):
        """Drop 'not yet in the collection this loop fills' from a path condition: the elements stay the same as a set."""
        out = []
        hit = False
        for g in conj_list(pc):
            if g[0] == "not" and g[1][0] == "in" and isinstance(g[1][2], CollV) and ("carried", uid) in g[1][2].ops:
                hit = True
                out.append(("first", uid, g[1][1]))
                continue
            out.append(g)
        return f_and(*out), hit

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__, e)
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """Evaluate a list of expressions left to right: (state, [values]) or (state, Exc)."""
        if not es:
            yield st, []
            return
        for s, v in self.ev(es[0], st, fr):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, vs in self.evs(es[1:], s, fr):
                yield s2, (vs if isinstance(vs, Exc) else [v] + vs)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is True or v is False:
            yield st, (T if v else F)
        elif isinstance(v, int):
            yield st, P(v)
        else:
            yield st, K(v)

    def e_Name(self, e, st, fr):
        yield from self.name(e.id, st, fr, e)

    def name(self, nm, st, fr, node):
        if nm in st.frames.get(fr.fid, {}):
            v = st.frames[fr.fid][nm]
            yield st, v
            return
        for p in fr.parents:
            if nm in st.frames.get(p, {}):
                yield st, st.frames[p][nm]
                return
        v = self.glob(fr.mod, nm)
        if v is None:
            if nm in ("True", "False"):
                yield st, (T if nm == "True" else F)
                return
            yield st, Exc("NameError", (K(nm),), node)
            return
        yield st, v

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred", e)
        for s, vs in self.evs(e.elts, st, fr):
            yield s, (vs if isinstance(vs, Exc) else Tup(vs))

    def e_List(self, e, st, fr, kind="list"):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred", e)
        for s, vs in self.evs(e.elts, st, fr):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            ops = [("+", (), T, v) for v in vs]
            yield s, self.newcoll(s, kind, dedupe(ops) if kind == "set" else ops)

    def e_Set(self, e, st, fr):
        yield from self.e_List(e, st, fr, "set")

    def e_Dict(self, e, st, fr):
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking", e)
        for s, vs in self.evs([x for kv in zip(e.keys, e.values) for x in kv], st, fr):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            ops = [("set", (), T, k, self.snap_if_coll(v, s)) for k, v in zip(vs[::2], vs[1::2])]
            yield s, self.new(s, DictRec(ops))

    def snap_if_coll(self, v, st):
        return v

    def e_Lambda(self, e, st, fr):
        f = self.make_func(e, fr, st, None)
        f.ctxcls = fr.cls
        yield st, f

    def e_JoinedStr(self, e, st, fr):
        from . import symlib
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(v.value)
        for s, vs in self.evs(parts, st, fr):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            out = []
            for v in vs:
                out.extend(symlib.str_parts(self, v, s))
            yield s, symlib.mkstr(out)

    def e_NamedExpr(self, e, st, fr):
        for s, v in self.ev(e.value, st, fr):
            if not isinstance(v, Exc):
                s.set(fr.fid, e.target.id, v)
            yield s, v

    def e_Attribute(self, e, st, fr):
        for s, o in self.ev(e.value, st, fr):
            if isinstance(o, Exc):
                yield s, o
            else:
                yield from self.getattr(o, self.mangle(e.attr, fr.cls), s, e)

    def find_method(self, cls, name):
        f = cls.find(name)
        if f is None:
            raise Unsupported("no method %s" % name)
        return f

    def bind(self, v, obj, cls, st, node):
        if isinstance(v, FuncV):
            if v.kind == "func":
                return [(st, BoundV(v, obj))] if obj is not None else [(st, v)]
            if v.kind == "classmethod":
                return [(st, BoundV(v, cls))]
            if v.kind == "staticmethod":
                return [(st, v)]
            if v.kind == "property":
                if obj is None:
                    return [(st, v)]
                return list(self.call(BoundV(FuncV(v.node, v.mod, v.env, v.defaults, v.kwdefaults, v.cls, "func", v.name), obj),
                                      [], {}, st, node))
        return [(st, v)]

    def getattr(self, o, name, st, node):
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Inst):
                if name in r.attrs:
                    yield st, r.attrs[name]
                    return
                if name == "__class__":
                    yield st, r.cls
                    return
                v = r.cls.find(name)
                if v is not None:
                    yield from self.bind(v, o, r.cls, st, node)
                    return
                yield st, Exc("AttributeError", (K(name),), node)
                return
            if isinstance(r, Board):
                if self.raw and name in r.attrs and isinstance(r.attrs[name], Ref):
                    yield st, StoreV(o, name)
                    return
                if not self.raw and name in self.storage_names:
                    yield st, StoreV(o, name)
                    return
                if name in r.attrs:
                    yield st, r.attrs[name]
                    return
                v = r.cls.find(name)
                if v is not None:
                    yield from self.bind(v, o, r.cls, st, node)
                    return
                if name == "__class__":
                    yield st, r.cls
                    return
                yield st, Exc("AttributeError", (K(name),), node)
                return
            yield st, MethV(o, name)
            return
        if isinstance(o, ClassV):
            if name == "__name__":
                yield st, K(o.name)
                return
            if name == "__doc__":
                yield st, K(ast.get_docstring(o.node, clean=False) if o.node is not None and isinstance(o.node, ast.ClassDef) else None)
                return
            v = o.find(name)
            if v is not None:
                yield from self.bind(v, None, o, st, node)
                return
            b = o.extbase()
            if b is not None or name.startswith("__"):
                yield st, MethV(o, name)
                return
            yield st, Exc("AttributeError", (K(name),), node)
            return
        if isinstance(o, ModV):
            v = self.glob(o.name, name)
            if v is None or isinstance(v, BuiltinV) and self.module_def(o.name, name) is None:
                yield st, Exc("AttributeError", (K(name),), node)
            else:
                yield st, v
            return
        if isinstance(o, ExtV):
            if ext_missing(o.name, name):
                yield st, Exc("AttributeError", (K("%s.%s" % (o.name, name)),), node)
                return
            yield st, ext_attr(o, name)
            return
        if isinstance(o, Tup) and o.cls is not None:
            fs = o.cls.tuple_fields()
            if fs and name in fs:
                yield st, o.items[fs.index(name)]
                return
            v = o.cls.find(name)
            if v is not None:
                yield from self.bind(v, o, o.cls, st, node)
                return
        if isinstance(o, SuperV):
            mro = self.mro_of(o.selfv, st)
            if o.cls in mro:
                mro = mro[mro.index(o.cls) + 1:]
            for c in mro:
                if name in c.attrs:
                    selfv = o.selfv
                    yield from self.bind(c.attrs[name], None if isinstance(selfv, ClassV) and c.attrs[name].kind == "func" else selfv,
                                         selfv if isinstance(selfv, ClassV) else self.rec(st, selfv).cls, st, node)
                    return
            yield st, MethV(o, name)
            return
        if isinstance(o, (FuncV, BoundV)) and name in ("__name__", "__doc__"):
            g = o.func if isinstance(o, BoundV) else o
            yield st, K(g.name if name == "__name__" else ast.get_docstring(g.node, clean=False) if not isinstance(g.node, ast.Lambda) else None)
            return
        if isinstance(o, ObjV):
            v = o.get(name)
            if v is not None:
                yield st, v
                return
        yield st, MethV(o, name)

    def mro_of(self, v, st):
        if isinstance(v, ClassV):
            return v.mro()
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, (Inst, Board)):
                return r.cls.mro()
        raise Unsupported("super()")

    def e_Subscript(self, e, st, fr):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for s, vs in self.evs([e.value] + parts, st, fr):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                it = iter(vs[1:])
                lo, hi, step = [next(it) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                from . import symlib
                yield from symlib.slice_(self, vs[0], lo, hi, step, s, e)
            return
        for s, vs in self.evs([e.value, e.slice], st, fr):
            if isinstance(vs, Exc):
                yield s, vs
            else:
                yield from self.getitem(vs[0], vs[1], s, e)

    def getitem(self, o, key, st, node):
        if isinstance(o, StoreV):
            sv = StoreV(o.board, o.name, o.path + (key,))
            if not self.raw and any(len(t[1]) == len(sv.path) and t[0] == sv.name for t in self.templates.values()):
                yield st, self.store_read(sv, st, node)
            else:
                yield st, sv
            return
        if isinstance(o, Ref):
            r = self.rec(st, o)
            if isinstance(r, Board) or isinstance(r, Inst):
                f = r.cls.find("__getitem__")
                if f is None:
                    yield st, Exc("TypeError", (), node)
                    return
                yield from self.call(BoundV(f, o), [key], {}, st, node)
                return
            if isinstance(r, DictRec):
                yield from self.dict_get(o, key, st, node)
                return
            if isinstance(r, Coll):
                o = r.val()
        if isinstance(o, SlotRef):
            o = self.slot_value(o, st)
        if isinstance(o, (K, StrV)):
            from . import symlib
            o2 = self.coll(o, st, node)
            if isinstance(key, Poly) and key.isconst() and isinstance(o, K):
                try:
                    yield st, K(o.v[key.cval()])
                except IndexError:
                    yield st, Exc("IndexError", (), node)
                return
            o = o2
        if isinstance(o, Tup) and isinstance(key, Poly):
            if key.isconst():
                i = key.cval()
                if -len(o.items) <= i < len(o.items):
                    yield st, o.items[i]
                else:
                    yield st, Exc("IndexError", (), node)
                return
            # symbolic index into a short tuple
            todo = [st]
            for i, x in enumerate(o.items):
                nxt = []
                for s in todo:
                    for s2, b in self.branch(mkeqp(key - i), s):
                        if b:
                            yield s2, x
                        else:
                            nxt.append(s2)
                todo = nxt
            if todo and len(o.items) > 3:
                raise Unsupported("symbolic index", node)
            for s in todo:
                if isinstance(mod_bound(key), int) and mod_bound(key) < len(o.items):
                    continue
                yield s, Exc("IndexError", (), node)
            return
        if isinstance(o, CollV) and isinstance(key, Poly) and o.kind not in ("set", "frozenset"):
            ops = o.ops
            if all(x[0] == "+" and not x[1] and x[2] == T for x in ops) and key.isconst():
                i = key.cval()
                if -len(ops) <= i < len(ops):
                    yield st, ops[i][3]
                else:
                    yield st, Exc("IndexError", (), node)
                return
            # indexing a full range-shaped family
            if len(ops) == 1 and ops[0][0] == "+" and len(ops[0][1]) == 1 and ops[0][2] == T:
                b = ops[0][1][0]
                if b.dom is None and b.lo is not None:
                    inside = f_and(fnot(mklt(key)), mklt(key + b.lo - b.hi))
                    if self.decide(inside, st) is True:
                        yield st, subst(ops[0][3], {b: key + b.lo})
                        return
                    if key.isconst() and key.cval() < 0 and self.decide(mklt(b.lo - b.hi - key - 1), st) is True:
                        yield st, subst(ops[0][3], {b: key + b.hi})
                        return
            for s, ne in self.branch(nonempty(o), st):
                if not ne:
                    yield s, Exc("IndexError", (), node)
                    continue
                if not key.isconst():
                    s2 = s.fork(("index-error", o, key))
                    yield s2, Exc("IndexError", (), node)
                elif key.cval() not in (0, -1):
                    s2 = s.fork(("index-error", o, key))
                    yield s2, Exc("IndexError", (), node)
                v = self.skolem(o, s, "at", key.cval() if key.isconst() else None)
                yield s, v
            return
        if isinstance(o, Term) or isinstance(o, Poly) and o.single() is not None:
            a = o.single() if isinstance(o, Poly) else o
            if isinstance(key, Poly) and key.isconst():
                yield st, P(Term("item", a, key.cval()))
            else:
                yield st, P(Term("getitem", a, key))
            return
        raise Unsupported("subscript of %r" % (o,), node)

    def skolem(self, c, st, name="x", which=None):
        """Some element of a non-empty collection (facts added to the path); in explicit mode, which one it is is noted among them."""
        fl = self.items_of(c, st)
        if len(fl) == 1:
            bs, cond, el = refresh(*fl[0])
            st.add(cond)
            if self.explicit:
                ordered = c.kind in ("list", "tuple", "range") and not split_first(fl[0][1])[1] and all(b.dom is None for b in fl[0][0])
                st.add(("truth", Term("picked", el, CollV("list", [("+",) + tuple(fl[0])]), which if ordered else None)))
            return self.thaw(el, st)
        v = Var(name, dom=("elem", c))
        if self.explicit:
            st.add(("truth", Term("picked", P(v), c, None)))
        return P(v)

    def e_IfExp(self, e, st, fr):
        for s, f in self.cond(e.test, st, fr):
            if isinstance(f, Exc):
                yield s, f
                continue
            br = self.branch(f, s)
            if len(br) == 2:
                a = self.pure(e.body, s.fork(f), fr)
                b = self.pure(e.orelse, s.fork(fnot(f)), fr)
                if a is not None and b is not None and isinstance(a, Poly) and isinstance(b, Poly):
                    yield s, mkite(f, a, b)
                    continue
                if a is not None and b is not None and isf(a) and isf(b):
                    yield s, f_or(f_and(f, a), f_and(fnot(f), b))
                    continue
            for s2, b in br:
                yield from self.ev(e.body if b else e.orelse, s2, fr)

    def pure(self, e, st, fr):
        """Value of an expression without effects and with one outcome, or None."""
        h, ev, pc, frames = dict(st.heap), st.ev, st.pc, st.frames
        try:
            outs = list(self.ev(e, st, fr))
        except Unsupported:
            raise
        if len(outs) != 1 or isinstance(outs[0][1], Exc):
            return None
        s, v = outs[0]
        if s.ev != ev or s.pc != pc or s.frames.get(fr.fid) != frames.get(fr.fid):
            return None
        for k, r in h.items():
            if s.heap.get(k) is not r:
                return None
        if isinstance(v, Ref) and v.id not in h and v.id not in self.gheap:
            return None
        return v

    def cond(self, e, st, fr):
        """Formula of a condition: (state, formula or Exc)."""
        r = version_test(e) if isinstance(e, ast.Compare) and "version_info" in ast.dump(e) else None
        if r is not None:
            yield st, (T if r else F)
            return
        if isinstance(e, ast.BoolOp):
            yield from self.cond_bool(e, list(e.values), st, fr)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s, f in self.cond(e.operand, st, fr):
                yield s, (f if isinstance(f, Exc) else fnot(f))
            return
        for s, v in self.ev(e, st, fr):
            yield s, (v if isinstance(v, Exc) else self.truth(v, s, e))

    def cond_bool(self, e, vals, st, fr):
        isand = isinstance(e.op, ast.And)
        for s, f in self.cond(vals[0], st, fr):
            if isinstance(f, Exc) or len(vals) == 1:
                yield s, f
                continue
            r = self.decide(f, s)
            if r is (not isand):
                yield s, (F if isand else T)
                continue
            if r is isand:
                yield from self.cond_bool(e, vals[1:], s, fr)
                continue
            s2 = s.fork(f if isand else fnot(f))
            pc, heap, ev = s2.pc, dict(s2.heap), s2.ev
            outs = list(self.cond_bool(e, vals[1:], s2, fr))
            if len(outs) == 1 and not isinstance(outs[0][1], Exc) and outs[0][0].pc == pc and outs[0][0].ev == ev and \
                    all(outs[0][0].heap.get(k) is v for k, v in heap.items()):
                for k, v in outs[0][0].heap.items():
                    s.heap.setdefault(k, v)
                yield s, (f_and(f, outs[0][1]) if isand else f_or(f, outs[0][1]))
            else:
                yield s.fork(fnot(f) if isand else f), (F if isand else T)
                yield from outs

    def e_BoolOp(self, e, st, fr):
        # as a value
        isand = isinstance(e.op, ast.And)
        def go(vals, st):
            for s, v in self.ev(vals[0], st, fr):
                if isinstance(v, Exc) or len(vals) == 1:
                    yield s, v
                    continue
                f = self.truth(v, s, e)
                r = self.decide(f, s)
                if r is (not isand):
                    yield s, v
                elif r is isand:
                    yield from go(vals[1:], s)
                else:
                    s2 = s.fork(f if isand else fnot(f))
                    pc, heap, ev = s2.pc, dict(s2.heap), s2.ev
                    outs = list(go(vals[1:], s2))
                    if isf(v) and len(outs) == 1 and isf(outs[0][1]) and outs[0][0].pc == pc and outs[0][0].ev == ev and \
                            all(outs[0][0].heap.get(k) is x for k, x in heap.items()):
                        for k, x in outs[0][0].heap.items():
                            s.heap.setdefault(k, x)
                        yield s, (f_and(f, outs[0][1]) if isand else f_or(f, outs[0][1]))
                    else:
                        yield s.fork(fnot(f) if isand else f), v
                        yield from outs
        yield from go(list(e.values), st)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            for s, f in self.cond(e.operand, st, fr):
                yield s, (f if isinstance(f, Exc) else fnot(f))
            return
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Exc):
                yield s, v
            elif isinstance(e.op, ast.USub) and isinstance(v, Poly):
                yield s, -v
            elif isinstance(e.op, ast.UAdd):
                yield s, v
            elif isinstance(e.op, ast.USub) and isinstance(v, K) and isinstance(v.v, float):
                yield s, K(-v.v)
            else:
                raise Unsupported("unary operator", e)

    def e_Compare(self, e, st, fr):
        def go(left, ops, rights, st, acc):
            if not ops:
                yield st, acc
                return
            for s, r in self.ev(rights[0], st, fr):
                if isinstance(r, Exc):
                    yield s, r
                    continue
                for s2, f in self.compare(ops[0], left, r, s, e):
                    if isinstance(f, Exc):
                        yield s2, f
                        continue
                    yield from go(r, ops[1:], rights[1:], s2, f_and(acc, f))
        for s, l in self.ev(e.left, st, fr):
            if isinstance(l, Exc):
                yield s, l
            else:
                yield from go(l, e.ops, e.comparators, s, T)

    def plain(self, v, st):
        """Value for comparisons: collections by contents."""
        if isinstance(v, SlotRef):
            return self.slot_value(v, st)
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, Coll):
                if all(o[0] == "+" and not o[1] and o[2] == T for o in r.ops) and r.kind == "list":
                    return CollV("list", [("+", (), T, self.plain(o[3], st)) for o in r.ops])
                return r.val()
        if isinstance(v, StoreV):
            return self.store_read(v, st)
        return v

    def compare(self, op, l, r, st, node):
        neg = isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for s, f in self.equal(l, r, st, node):
                yield s, (f if isinstance(f, Exc) else fnot(f) if neg else f)
            return
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.identical(l, r, st, node)
            yield st, (fnot(f) if neg else f)
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            for s, f in self.contains(l, r, st, node):
                yield s, (f if isinstance(f, Exc) else fnot(f) if neg else f)
            return
        l, r = self.plain(l, st), self.plain(r, st)
        if isf(l):
            l = mkite(l, ONE, ZERO)
        if isf(r):
            r = mkite(r, ONE, ZERO)
        if isinstance(l, Poly) and isinstance(r, Poly):
            if isinstance(op, ast.Lt):
                yield st, below(l - r)
            elif isinstance(op, ast.LtE):
                yield st, below(l - r - 1)
            elif isinstance(op, ast.Gt):
                yield st, below(r - l)
            else:
                yield st, below(r - l - 1)
            return
        if floats(l, r):
            l, r = [K(x.cval()) if isinstance(x, Poly) else x for x in (l, r)]
        if isinstance(l, (CollV, Tup)) and isinstance(r, (CollV, Tup)):
            name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            kinds = [getattr(x, "kind", "tuple") for x in (l, r)]
            if all(k in ("set", "frozenset") for k in kinds) and name in ("<=", ">="):
                a, b = (l, r) if name == "<=" else (r, l)
                yield st, subset(a, b)
                return
            yield st, ("cmp", name, l, r)
            return
        if isinstance(l, K) and isinstance(r, K):
            try:
                v = {ast.Lt: lambda: l.v < r.v, ast.LtE: lambda: l.v <= r.v, ast.Gt: lambda: l.v > r.v,
                     ast.GtE: lambda: l.v >= r.v}[type(op)]()
            except TypeError:
                yield st, Exc("TypeError", (), node)
                return
            yield st, (T if v else F)
            return
        yield st, ("cmp", type(op).__name__, l, r) if hash_ok(l) and hash_ok(r) else ("cmp", type(op).__name__, repr(l), repr(r))

    def identical(self, l, r, st, node):
        if isinstance(l, K) and isinstance(r, K):
            return T if l == r else F
        for a, b in ((l, r), (r, l)):
            if a == NONE:
                if isinstance(b, Term) or isinstance(b, Poly) and b.single() is not None and not (
                        isinstance(b.single(), Var) and b.single().dom is None) and not (
                        isinstance(b.single(), Term) and b.single().op in INT_OPS):
                    return ("eqv", NONE, b if isinstance(b, Term) else b)
                return F
        if isinstance(l, (ClassV, FuncV, Ref)) or isinstance(r, (ClassV, FuncV, Ref)):
            return T if l == r else F
        if isf(l) and isf(r):
            return mkeq(l, r)
        if isinstance(l, Poly) and isinstance(r, Poly):
            return mkeq(l, r)
        if isinstance(l, (K, StrV)) and isinstance(r, (K, StrV)):
            return mkeq(l, r)
        return ("eqv", l, r) if hash_ok(l) and hash_ok(r) else ("is", repr(l), repr(r))

    def equal(self, l, r, st, node):
        for a, b in ((l, r), (r, l)):
            if isinstance(a, Ref):
                rec = self.rec(st, a)
                if isinstance(rec, (Inst, Board)):
                    f = rec.cls.find("__eq__")
                    if f is None:
                        yield st, (T if a == b else F if isinstance(b, Ref) else ("eqv", a, b))
                        return
                    for s, v in self.call(BoundV(f, a), [b], {}, st, node):
                        yield s, (v if isinstance(v, Exc) else self.truth(v, s, node))
                    return
        l, r = self.plain(l, st), self.plain(r, st)
        if isinstance(l, (ClassV, FuncV, BoundV, BuiltinV, ExtV)) or isinstance(r, (ClassV, FuncV, BoundV, BuiltinV, ExtV)):
            if isinstance(l, Term) or isinstance(r, Term) or isinstance(l, Poly) or isinstance(r, Poly):
                yield st, ("eqv",) + tuple(sorted((l, r), key=repr))
                return
            yield st, (T if l == r else F)
            return
        if isinstance(l, (CollV, Tup)) and isinstance(r, (CollV, Tup)):
            yield st, self.coll_eq(l, r, st)
            return
        if isinstance(l, Ref) and isinstance(r, Ref):
            if l == r:
                yield st, T
                return
            yield st, ("eqv", l, r)
            return
        yield st, mkeq(l, r)

    def coll_eq(self, l, r, st):
        kl, kr = getattr(l, "kind", "tuple"), getattr(r, "kind", "tuple")
        grp = lambda k: "set" if k in ("set", "frozenset") else k
        if l == r:
            return T
        if isinstance(l, Tup) and isinstance(r, Tup):
            return mkeq(l, r)
        if grp(kl) != grp(kr) and "iter" not in (kl, kr):
            return F
        cl, cr = as_concrete(l), as_concrete(r)
        if cl is not None and cr is not None:
            if grp(kl) == "set":
                return f_and(*([mkin(x, r) for x in cl] + [mkin(x, l) for x in cr]))
            if len(cl) != len(cr):
                return F
            return f_and(*[mkeq(a, b) for a, b in zip(cl, cr)])
        for a, b in ((l, r), (r, l)):
            if as_concrete(a) == []:
                return fnot(nonempty(b))
        a, b = sorted((l, r), key=repr)
        return ("eqv", a, b)

    def contains(self, x, c, st, node):
        if isinstance(c, Ref):
            rec = self.rec(st, c)
            if isinstance(rec, (Inst, Board)):
                f = rec.cls.find("__contains__")
                if f is not None:
                    for s, v in self.call(BoundV(f, c), [x], {}, st, node):
                        yield s, (v if isinstance(v, Exc) else self.truth(v, s, node))
                    return
            if isinstance(rec, Gen):
                for s, cc in self.iterate(c, st, node):
                    yield s, (cc if isinstance(cc, Exc) else mkin(self.plain(x, s), cc))
                return
        if isinstance(c, (K, StrV)):
            from . import symlib
            yield st, symlib.str_contains(self, x, c, st, node)
            return
        for s, cc in self.iterate(c, st, node):
            if isinstance(cc, Exc):
                yield s, cc
                continue
            xv = self.plain(x, s)
            conc = as_concrete(cc)
            if conc and any(isinstance(e, Ref) for e in conc):
                yield from self.one_of(x, conc, s, node)
                continue
            if self.explicit and isinstance(cc, CollV) and any(o[0] in ("+", "-") and len(o[1]) > 3 for o in cc.ops):
                yield s, ("truth", Term("seen", xv, self.seen.setdefault(cc, len(self.seen))))
                continue
            if isinstance(cc, CollV) and any(o[0] == "carried" for o in cc.ops):
                f = F
                for i, o in enumerate(cc.ops):
                    if o[0] != "carried":
                        f = mkin(xv, CollV(cc.kind, [o])) if f == F else f_or(f, mkin(xv, CollV(cc.kind, [o]))) if o[0] in ("+", "all") else \
                            f_and(f, fnot(mkin(xv, CollV(cc.kind, [("+",) + tuple(o[1:])]))))
                        continue
                    part = ("in", xv, CollV(cc.kind, cc.ops[:i + 1]))
                    f = f_or(f, part) if len(o) == 2 or o[3] else part
                yield s, f
                continue
            yield s, mkin(xv, cc)

    def one_of(self, x, elements, st, node):
        """Is x equal to one of these objects?"""
        if not elements:
            yield st, F
            return
        for s, f in [(st, T)] if x == elements[0] else self.equal(x, elements[0], st, node):
            if isinstance(f, Exc):
                yield s, f
                continue
            for s2, g in self.one_of(x, elements[1:], s, node):
                yield s2, (g if isinstance(g, Exc) else f_or(f, g))

    def e_BinOp(self, e, st, fr):
        for s, vs in self.evs([e.left, e.right], st, fr):
            if isinstance(vs, Exc):
                yield s, vs
            else:
                yield from self.binop(e.op, vs[0], vs[1], s, e)

    def binop(self, op, l, r, st, node):
        from . import symlib
        l, r = self.plain2(l, st), self.plain2(r, st)
        if isf(l):
            l = mkite(l, ONE, ZERO)
        if isf(r):
            r = mkite(r, ONE, ZERO)
        if isinstance(l, Poly) and isinstance(r, Poly):
            if isinstance(op, ast.Add):
                yield st, l + r
                return
            if isinstance(op, ast.Sub):
                yield st, l - r
                return
            if isinstance(op, ast.Mult):
                yield st, l * r
                return
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if r == ZERO:
                    yield st, Exc("ZeroDivisionError", (), node)
                    return
                q, m = divmod_poly(l, r)
                yield st, (q if isinstance(op, ast.FloorDiv) else m)
                return
            if isinstance(op, ast.Pow) and r.isconst() and 0 <= r.cval() <= 4:
                v = ONE
                for _ in range(r.cval()):
                    v = v * l
                yield st, v
                return
            yield st, P(Term(type(op).__name__, l, r))
            return
        if floats(l, r) and isinstance(op, ast.Pow) and isinstance(l, Poly) and l.cval() > 0 and abs(r.v) <= 4:
            yield st, K(float(l.cval() ** r.v))
            return
        if floats(l, r) and type(op) in (ast.Add, ast.Sub, ast.Mult):
            a, b = [x.cval() if isinstance(x, Poly) else x.v for x in (l, r)]
            yield st, K(a + b if isinstance(op, ast.Add) else a - b if isinstance(op, ast.Sub) else a * b)
            return
        yield from symlib.binop(self, op, l, r, st, node)

    def plain2(self, v, st):
        if isinstance(v, StoreV):
            return self.store_read(v, st)
        if isinstance(v, SlotRef):
            return self.slot_value(v, st)
        return v

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, st, fr, elts):
        """Outcomes (state, [(binders, cond, values)] , exc) of a comprehension."""
        fid = next(_ids)
        st.frames[fid] = {}
        fr2 = Frame(fid, fr.mod, fr.cls, fr.func, (fr.fid,) + fr.parents, fr.isgen)

        def rec(i, st):
            if i == len(e.generators):
                for s, vs in self.evs(elts, st, fr2):
                    yield s, (vs if isinstance(vs, Exc) else [((), T, [self.freeze_new(v, s) for v in vs])])
                return
            g = e.generators[i]
            for s, it in self.ev(g.iter, st, fr2):
                if isinstance(it, Exc):
                    yield s, it
                    continue
                for s1, c in self.iterate(it, s, g.iter):
                    if isinstance(c, Exc):
                        yield s1, c
                        continue
                    items = self.items_of(c, s1, g.iter)
                    yield from seq(i, g, items, 0, s1)

        def seq(i, g, items, j, st):
            if j == len(items):
                yield st, []
                return
            bs, cond, el = refresh(*items[j])
            # one generic element
            s0 = st.fork()
            if bs:
                s0.add(cond)
            else:
                s0.add(cond)
            if not s0.feasible() or (cond != T and self.decide(cond, st) is False):
                yield from seq(i, g, items, j + 1, st)
                return
            base = s0.pc
            mark = next(_ids)
            before = dict(s0.heap)
            results = []
            exc = []
            for s1, k, v in self.assign(g.target, self.thaw(el, s0), s0, fr2):
                if k != "n":
                    exc.append((s1, v))
                    continue
                for s2, ok, f in conds(g.ifs, s1):
                    if isinstance(ok, Exc):
                        exc.append((s2, ok))
                        continue
                    if not ok:
                        results.append((s2, []))
                        continue
                    for s3, rs in rec(i + 1, s2):
                        if isinstance(rs, Exc):
                            exc.append((s3, rs))
                        else:
                            results.append((s3, [(b, f_and(f, c), v) for b, c, v in rs]))
            for s, x in exc:
                if not s.feasible():
                    continue
                yield s, x
            # effects inside comprehensions are only supported as events
            lifted = []
            out = st.fork()
            for s, rs in results:
                if not s.feasible():
                    continue
                for rid, r in before.items():
                    if s.heap.get(rid) is not r:
                        raise Unsupported("comprehension with side effects", e)
                picks = [h for h in s.pc if h not in base and is_pick(h) and not mentions(h, lambda x: x in bs)]
                out.add(f_and(*picks))                       # which element was picked does not depend on the binders
                pcx = f_and(*[h for h in s.pc if h not in base and h not in picks])
                for rid, r in s.heap.items():
                    if rid >= mark:
                        out.heap.setdefault(rid, r)
                for ev in s.ev[len(st.ev):]:
                    out.ev = out.ev + (("fam", bs, f_and(cond, pcx), ev),)
                for b, c, v in rs:
                    c2 = f_and(cond, pcx, c)
                    if c2 != F:
                        lifted.append((bs + b, c2, v))
            for x in exc:
                if x[0].feasible():
                    f = f_and(*[h for h in x[0].pc if h not in base])
                    out.add(fnot(mkex(*refresh(bs, f_and(cond, f)))))
            if not out.feasible():
                return
            for s, rs in seq(i, g, items, j + 1, out):
                yield s, (rs if isinstance(rs, Exc) else lifted + rs)

        def conds(ifs, st):
            """(state, kept?, formula)"""
            if not ifs:
                yield st, True, T
                return
            for s, f in self.cond(ifs[0], st, fr2):
                if isinstance(f, Exc):
                    yield s, f, None
                    continue
                r = self.decide(f, s)
                if r is False:
                    yield s, False, F
                    continue
                s1 = s if r is True else s.fork(f)
                f1 = T if r is True else f
                for s2, ok, g in conds(ifs[1:], s1):
                    if isinstance(ok, Exc) or not ok:
                        yield s2, ok, g
                        continue
                    # keep the condition in the formula, not in the path
                    s2.pc = tuple(h for h in s2.pc if h not in conj_list(f1) or h in s.pc)
                    yield s2, True, f_and(f1, g)
        yield from rec(0, st)

    def freeze_new(self, v, st):
        return v

    def comp_coll(self, e, st, fr, kind):
        mark = next(_ids)
        for s, rs in self.comp(e, st, fr, [e.elt]):
            if isinstance(rs, Exc):
                yield s, rs
                continue
            ops = [("+", b, c, self.freeze(v[0], s, mark) if b else v[0]) for b, c, v in rs]
            if kind == "set":
                ops = dedupe(ops)
            if kind == "gen":
                yield s, CollV("gen", ops)
            else:
                yield s, self.newcoll(s, kind, ops)

    def e_ListComp(self, e, st, fr):
        yield from self.comp_coll(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        yield from self.comp_coll(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        yield from self.comp_coll(e, st, fr, "gen")

    def e_DictComp(self, e, st, fr):
        mark = next(_ids)
        for s, rs in self.comp(e, st, fr, [e.key, e.value]):
            if isinstance(rs, Exc):
                yield s, rs
                continue
            ops = [("set", b, c, v[0], self.freeze(v[1], s, mark)) for b, c, v in rs]
            yield s, self.new(s, DictRec(ops))

    # ------------------------------------------------------------ yields
    def e_Yield(self, e, st, fr):
        if e.value is None:
            st.ev = st.ev + (("yield", (), T, NONE, e),)
            yield st, NONE
            return
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc):
                yield s, v
                continue
            s.ev = s.ev + (("yield", (), T, v, e),)
            yield s, NONE

    def e_YieldFrom(self, e, st, fr):
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, c in self.iterate(v, s, e):
                if isinstance(c, Exc):
                    yield s2, c
                    continue
                for bs, cond, el in self.items_of(c, s2, e):
                    s2.ev = s2.ev + (("yield", bs, cond, el, e),)
                yield s2, NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.frames.get(fr.fid, {}):
            if fr.cls is None or fr.func is None:
                raise Unsupported("super()", e)
            first = fr.func.node.args.args[0].arg
            if e.args:
                for s, vs in self.evs(e.args, st, fr):
                    if isinstance(vs, Exc):
                        yield s, vs
                    else:
                        yield s, SuperV(vs[0], vs[1])
            else:
                yield st, SuperV(fr.cls, st.frames[fr.fid][first])
            return
        plain = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = [k.value for k in e.keywords]
        for s, vs in self.evs([e.func] + plain + kws, st, fr):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            args = []
            bad = None
            for a, v in zip(e.args, vs[1:1 + len(plain)]):
                if isinstance(a, ast.Starred):
                    x = self.star(v, s, e)
                    if x is None:
                        bad = v
                        break
                    args.extend(x)
                else:
                    args.append(v)
            if bad is not None:
                outs = self.star_call(vs[0], args, bad, e, vs, plain, s, fr)
                yield from outs
                continue
            kwargs = {}
            for k, v in zip(e.keywords, vs[1 + len(plain):]):
                if k.arg is None:
                    if isinstance(v, Ref) and isinstance(self.rec(s, v), DictRec) and all(
                            o[0] == "set" and not o[1] and isinstance(o[3], K) for o in self.rec(s, v).ops):
                        for o in self.rec(s, v).ops:
                            kwargs[o[3].v] = o[4]
                    elif isinstance(v, Term) or isinstance(v, Ref) and isinstance(self.rec(s, v), DictRec) and "**" not in kwargs:
                        kwargs["**"] = v
                    else:
                        raise Unsupported("keyword unpacking", e)
                else:
                    kwargs[k.arg] = v
            yield from self.call(vs[0], args, kwargs, s, e, fr)

    def star(self, v, st, node):
        """Elements of a starred argument of known length."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and isinstance(self.rec(st, v), Coll):
            c = self.rec(st, v).val()
            x = as_concrete(c)
            return x
        if isinstance(v, CollV):
            return as_concrete(v)
        return None

    def star_call(self, f, args, v, e, vs, plain, st, fr):
        """f(*v) with v of unknown length: spread an opaque pair where the callee takes a fixed number."""
        if len(e.args) == len(args) + 1 and not e.keywords:
            if isinstance(f, ExtV) or isinstance(f, MethV) or isinstance(f, BuiltinV):
                yield from self.call(f, args + [StarV(v)], {}, st, e, fr)
                return
            n = self.arity(f)
            g = f.func if isinstance(f, BoundV) else f
            if n is None and isinstance(g, FuncV) and len(args) + isinstance(f, BoundV) == len(g.node.args.args):
                c = self.coll(v, st, e)
                yield from self.call(f, args + [StarV(CollV("tuple", c.ops) if isinstance(c, CollV) else c)], {}, st, e, fr)
                return
            if isinstance(v, (Poly, Term)) and n is not None:
                a = v.single() if isinstance(v, Poly) else v
                yield from self.call(f, args + [P(Term("item", a, i)) for i in range(n - len(args))], {}, st, e, fr)
                return
        raise Unsupported("starred argument", e)

    @staticmethod
    def arity(f):
        k = 0
        if isinstance(f, BoundV):
            f, k = f.func, 1
        if isinstance(f, FuncV) and not f.node.args.vararg:
            return len(f.node.args.args) - k - len(f.defaults)
        return None

    def call(self, f, args, kwargs, st, node=None, fr=None):
        from . import symlib
        if isinstance(f, BoundV):
            yield from self.call_func(f.func, [f.selfv] + list(args), kwargs, st, node)
            return
        if isinstance(f, FuncV):
            yield from self.call_func(f, list(args), kwargs, st, node)
            return
        if isinstance(f, ClassV):
            yield from self.instantiate(f, args, kwargs, st, node)
            return
        if isinstance(f, Ref) and isinstance(self.rec(st, f), Inst):
            m = self.rec(st, f).cls.find("__call__")
            if m is None:
                yield st, Exc("TypeError", (), node)
                return
            yield from self.call_func(m, [f] + list(args), kwargs, st, node)
            return
        key = ("call", repr(f)) if isinstance(f, (ExtV, BuiltinV)) else None
        if key and f.name in self.stubs:
            yield from self.stubs[f.name](self, args, kwargs, st, node)
            return
        if isinstance(f, BuiltinV):
            yield from symlib.builtin(self, f.name, args, kwargs, st, node, fr)
            return
        if isinstance(f, ExtV):
            yield from symlib.external(self, f.name, args, kwargs, st, node)
            return
        if isinstance(f, MethV):
            yield from symlib.method(self, f.obj, f.name, args, kwargs, st, node)
            return
        if isinstance(f, Term) and f in self.stubs:
            yield from self.stubs[f](self, args, kwargs, st, node)
            return
        if isinstance(f, (Term, Poly)):
            if "opaque-call" in self.stubs:
                yield from self.stubs["opaque-call"](self, f, args, kwargs, st, node)
                return
        m = f.cls.find("__call__") if isinstance(f, Tup) and f.cls is not None else None
        if m is not None:
            yield from self.call_func(m, [f] + list(args), kwargs, st, node)
            return
        if isinstance(f, K) or isinstance(f, Tup):
            yield st, Exc("TypeError", (), node)
            return
        raise Unsupported("call of %r" % (f,), node)

    def instantiate(self, cls, args, kwargs, st, node):
        fs = cls.tuple_fields()
        if fs is not None:
            vals = list(args) + [kwargs.get(x) for x in fs[len(args):]]
            if len(vals) != len(fs) or any(v is None for v in vals):
                yield st, Exc("TypeError", (), node)
            else:
                yield st, Tup(vals, cls)
            return
        key = (cls.mod, cls.name)
        if key in self.stubs:
            yield from self.stubs[key](self, list(args), kwargs, st, node)
            return
        b = cls.extbase()
        if b is not None and b.name in EXC_BASES:
            yield st, Term("exc", b.name)
            return
        if b is not None:
            raise Unsupported("instance of %s" % b.name, node)
        sud = self.glob("sudokutools.sudoku", "Sudoku")
        if cls is sud and not self.raw:
            yield from self.new_board(cls, args, kwargs, st, node)
            return
        inst = self.new(st, Inst(cls, {}))
        init = cls.find("__init__")
        if init is None:
            if args or kwargs:
                yield st, Exc("TypeError", (), node)
            else:
                yield st, inst
            return
        for s, v in self.call_func(init, [inst] + list(args), kwargs, st, node):
            yield s, (v if isinstance(v, Exc) else inst)

    def bindargs(self, f, args, kwargs, st, node):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        rest = None
        if args and isinstance(args[-1], StarV) and a.vararg and len(args) == len(params) + 1 and isinstance(args[-1].v, (CollV, Tup)):
            rest = args.pop().v
        if any(isinstance(x, StarV) for x in args):
            raise Unsupported("starred argument", node)
        if "**" in kwargs:
            raise Unsupported("keyword unpacking", node)
        if len(args) > len(params):
            if not a.vararg:
                return None
            env[a.vararg.arg] = Tup(args[len(params):])
            args = args[:len(params)]
        elif a.vararg:
            env[a.vararg.arg] = Tup([]) if rest is None else rest
        for p, v in zip(params, args):
            env[p] = v
        extra = {}
        for k, v in kwargs.items():
            if k in env:
                return None
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, DictRec([("set", (), T, K(k), v) for k, v in extra.items()]))
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j < 0:
                    return None
                env[p] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg not in f.kwdefaults:
                    return None
                env[p.arg] = f.kwdefaults[p.arg]
        return env

    def call_func(self, f, args, kwargs, st, node=None):
        key = (f.mod, f.qual)
        if key in self.stubs and not self.raw:
            yield from self.stubs[key](self, args, kwargs, st, node)
            return
        env = self.bindargs(f, args, kwargs, st, node)
        if env is None:
            yield st, Exc("TypeError", (K("arguments of %s" % f.qual),), node)
            return
        self.calls.append(key)
        if f.isgen:
            yield st, self.new(st, Gen(f, env))
            return
        yield from self.run_body(f, env, st, node)

    def run_body(self, f, env, st, node, gen=False):
        if self.stack.count(f.node) >= 2 or len(self.stack) > self.MAXDEPTH:
            raise Unsupported("recursion in %s" % f.qual, node)
        fid = next(_ids)
        st.frames[fid] = dict(env)
        fr = Frame(fid, f.mod, f.cls or getattr(f, "ctxcls", None), f, f.env or (), f.isgen)
        self.stack.append(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                for s, v in self.ev(f.node.body, st, fr):
                    yield s, v
                return
            # paths are collected so that the call stack is right while consumers run
            outs = list(self.block(f.node.body, st, fr))
        finally:
            self.stack.pop()
        for s, k, v in outs:
            if k == "ret":
                yield s, v
            elif k == "raise":
                yield s, v
            elif k == "n":
                yield s, NONE
            else:
                raise Unsupported("break outside loop", node)


class StarV(object):
    def __init__(self, v):
        self.v = v


INT_OPS = ("num", "len", "count", "fdiv", "mod", "sum", "Mult", "Pow", "ite", "int", "chosen")


def mod_bound(key):
    s = key.single()
    if isinstance(s, Term) and s.op == "mod" and s.args[1].isconst():
        return s.args[1].cval() - 1
    return None


def conj_list(f):
    return list(f[1]) if f[0] == "and" else ([] if f == T else [f])


def as_concrete(c):
    if isinstance(c, Tup):
        return list(c.items)
    if all(o[0] == "+" and not o[1] and o[2] == T for o in c.ops):
        return [o[3] for o in c.ops]
    return None


def dedupe(ops):
    out = []
    for o in ops:
        if o[0] == "+" and not o[1] and o[2] == T and o in out and not any(x[0] != "+" for x in out):
            continue
        out.append(o)
    return out


def removed_ops(c):
    fl = flat(c)
    if fl is None:
        v = Var("x", dom=("elem", c))
        return [("+", (v,), T, P(v))]
    return [("+",) + tuple(f) for f in fl]


def ite_coll(cond, a, b):
    def fam(c, g):
        fl = flat(c)
        if fl is None:
            raise Unsupported("conditional collection")
        return [("+", bs, f_and(g, cc), e) for bs, cc, e in fl]
    return CollV("frozenset", fam(a, cond) + fam(b, fnot(cond)))


def subset(a, b):
    fl = flat(a)
    if fl is None:
        return ("cmp", "<=", a, b)
    return f_and(*[fnot(mkex(*refresh(bs, f_and(c, fnot(mkin(e, b)))))) for bs, c, e in fl])


def is_text(v):
    return isinstance(v, StrV) or isinstance(v, K) and isinstance(v.v, str)


def rest_of(c, n):
    items = as_concrete(c)
    if items is None:
        raise Unsupported("partly consumed iterator")
    return CollV(c.kind if isinstance(c, CollV) else "gen", [("+", (), T, x) for x in items[n:]])


def hash_ok(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


EXT_CONST = {"string." + x: getattr(string, x) for x in (
    "digits", "whitespace", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "hexdigits", "octdigits", "punctuation", "printable")}


_EXT = {}


def version_test(test):
    """Value of a test of the Python version (the analysed one is the one running), or of being the main program; None: unknown."""
    import sys
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = version_test(test.operand)
        return None if r is None else not r
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, r, op = test.left, test.comparators[0], test.ops[0]
    if isinstance(l, ast.Name) and l.id == "__name__" and isinstance(r, ast.Constant):
        return False if isinstance(op, ast.Eq) and r.value == "__main__" else None
    src = ast.unparse(l)
    if src in ("sys.version_info[0]", "sys.version_info.major", "version_info[0]", "version_info.major"):
        a = sys.version_info[0]
    elif src in ("sys.version_info", "version_info"):
        a = tuple(sys.version_info)
    elif src in ("sys.version_info[:2]", "version_info[:2]"):
        a = tuple(sys.version_info[:2])
    else:
        return None
    try:
        b = ast.literal_eval(r)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(op)]()
    except Exception:
        return None


def below(p, depth=0):
    """p < 0, with the alternatives of an added minimum, maximum or conditional number spelled out."""
    for k, c in p.m.items():
        t = k[0] if len(k) == 1 else None
        if depth < 3 and isinstance(t, Term) and t.op == "ite" and all(isinstance(x, Poly) for x in t.args[1:]):
            cond, a, b = t.args
            rest = p - Poly({k: c})
            x, y = below(rest + a * c, depth + 1), below(rest + b * c, depth + 1)
            greatest = cond == mklt(b - a)
            if greatest or cond == mklt(a - b):
                return f_or(x, y) if greatest == (c < 0) else f_and(x, y)
            return f_or(f_and(cond, x), f_and(fnot(cond), y))
    return mklt(p)


def floats(l, r):
    """Are these two numbers that are known, one of them not an integer?"""
    kinds = [isinstance(x, K) and isinstance(x.v, float) for x in (l, r)]
    return any(kinds) and all(k or isinstance(x, Poly) and x.isconst() for k, x in zip(kinds, (l, r)))


def ext_missing(mod, name):
    """Does the standard library of this Python lack mod.name?"""
    key = (mod, name)
    if key not in _EXT:
        _EXT[key] = False
        import importlib
        import sys
        if mod.split(".")[0] in sys.stdlib_module_names and mod.split(".")[0] not in ("antigravity", "this", "idlelib", "turtledemo", "tkinter", "turtle"):
            try:
                o = importlib.import_module(mod)
                if not hasattr(o, name):
                    try:
                        importlib.import_module(mod + "." + name)
                    except ImportError:
                        _EXT[key] = True
            except ImportError:
                pass
    return _EXT[key]


def ext_attr(o, name):
    q = o.name + "." + name
    if q in EXT_CONST:
        return K(EXT_CONST[q])
    return ExtV(q)
