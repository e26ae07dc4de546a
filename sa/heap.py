"""Context-sensitive points-to / effect / type analysis (abstract interpretation).

Locals are flow-sensitive, the abstract heap is flow-insensitive (weak updates),
objects are named by allocation site and call string, and every object carries the
region it was created in: 'G' (module level), 'P:<name>' (reachable from an argument)
or 'E' (created by the analysed call).  No code of /repo runs.
"""
import ast
import builtins as _b

from .program import AnalysisBroken, enclosing, snippet

K = 6
MAXCONST = 12
MUTABLE = ("list", "set", "dict", "inst")


class Obj(object):
    __slots__ = ("kind", "site", "ctx", "fields", "meta", "tick", "uid")
    n = 0

    def __init__(self, kind, site, ctx):
        self.kind, self.site, self.ctx = kind, site, ctx
        self.fields = {}
        self.meta = {}
        self.tick = 0
        Obj.n += 1
        self.uid = Obj.n

    @property
    def region(self):
        return self.ctx[0]

    def __repr__(self):
        if self.kind in ("func", "class", "module", "ext", "builtin"):
            return "<%s %s>" % (self.kind, self.meta.get("name"))
        d = ""
        if isinstance(self.site, ast.AST):
            d = "%s@%s:%s" % (enclosing(self.site), getattr(self.site, "_mod", "?"),
                              getattr(self.site, "lineno", "?"))
        c = self.meta.get("cls")
        return "<%s%s %s %s>" % (self.kind, " " + c.meta["name"] if c else "", self.ctx[0], d)


ANY = ("any",)
VANY = frozenset([ANY])
EMPTY = frozenset()


def const(v):
    return ("c", type(v).__name__, v)


def vconst(v):
    return frozenset([const(v)])


def vtype(t):
    return frozenset([("t", t)])


INT, STR, BOOL, FLOAT = vtype("int"), vtype("str"), vtype("bool"), vtype("float")
NONE = vconst(None)


def isconst(a):
    return isinstance(a, tuple) and a[0] == "c"


def vobj(*o):
    return frozenset(o)


def widen(v):
    if len(v) < 2:
        return v
    for a in v:
        if isinstance(a, tuple) and a[0] == "t":
            v = frozenset(x for x in v if not (isinstance(x, tuple) and x[0] == "c" and x[1] == a[1]))
    if len(v) <= MAXCONST:
        return v
    cs = {}
    for a in v:
        if isconst(a) and a[1] in ("int", "str", "float"):
            cs.setdefault(a[1], []).append(a)
    for t, l in cs.items():
        if len(l) > MAXCONST:
            v = (v - frozenset(l)) | vtype(t)
    return v


def atype(a):
    """Type name of an atom; None if unknown."""
    if isinstance(a, Obj):
        if a.kind == "inst":
            return a.meta["cls"].meta["name"]
        return a.kind
    if a[0] == "any":
        return None
    return a[1]


def join_state(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    r = dict(a)
    for k, v in b.items():
        o = r.get(k)
        if o is None:
            r[k] = v
        elif o is not v:
            r[k] = widen(o | v)
    return r


class Frame(object):
    def __init__(self, func, mod, ctx, cls=None, closure=()):
        self.func, self.mod, self.ctx, self.cls = func, mod, ctx, cls
        self.ret = EMPTY
        self.yields = EMPTY
        self.retstate = None
        self.hist = {}
        self.closure = closure          # tuple of hist dicts, innermost first
        self.globals = set()
        self.nonlocals = set()
        self.loops = []
        self.allocs = set()
        self.handout = False
        self.self_value = None


class NeedAny(Exception):
    pass


LIST_METHODS_W = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear",
                  "appendleft", "popleft", "extendleft", "rotate"}
SET_METHODS_W = {"add", "discard", "remove", "pop", "update", "clear", "difference_update",
                 "intersection_update", "symmetric_difference_update"}
DICT_METHODS_W = {"setdefault", "pop", "popitem", "update", "clear"}

PURE_TYPES = {  # builtin class -> resulting abstract value of a call
    "int": INT, "float": FLOAT, "bool": BOOL, "str": STR, "len": INT, "abs": INT, "hash": INT, "id": INT,
    "repr": STR, "isinstance": BOOL, "issubclass": BOOL, "callable": BOOL, "hasattr": BOOL, "ord": INT,
    "chr": STR, "any": BOOL, "all": BOOL, "round": INT, "pow": INT, "ascii": STR, "format": STR,
    "print": NONE, "input": STR, "bytes": VANY, "bin": STR, "hex": STR, "oct": STR,
}


class Heap(object):
    """The abstract interpreter."""

    def __init__(self, prog):
        self.prog = prog
        self.interned = {}
        self.hv = 0
        self.tickc = 0
        self.writes = {}
        self.reads = {}
        self.events = {}
        self.extcalls = {}
        self.globwrites = {}
        self.memo = {}
        self.recsum = {}
        self.inprog = {}
        self.stack = []
        self.frames = []
        self.visited_funcs = set()
        self.visited_calls = set()
        self.unmodelled = {}
        self.modules = {}
        self.log = True
        self.handout_label = None
        self.stub = {}            # function object -> Value returned without looking inside
        self.call_hook = None
        self.reachcache = {}
        self.loading = set()
        for m in sorted(prog.trees):
            self.load_module(m)

    # ----------------------------------------------------------------- objects
    def intern(self, kind, site, ctx, extra=None):
        key = (kind, site if not isinstance(site, ast.AST) else id(site), ctx, extra)
        o = self.interned.get(key)
        if o is None:
            o = self.interned[key] = Obj(kind, site, ctx)
        return o

    def alloc(self, kind, site, fr, st=None, extra=None):
        o = self.intern(kind, site, fr.ctx, extra)
        self.tickc += 1
        o.tick = self.tickc
        fr.allocs.add(o)
        if st is not None and st.get("$H"):
            st["$H"] = st["$H"] - vobj(o)
        return o

    def ext(self, name):
        o = self.intern("ext", name, ("G",))
        o.meta["name"] = name
        return o

    def builtin(self, name):
        o = self.intern("builtin", name, ("G",))
        o.meta["name"] = name
        return o

    def store(self, obj, field, val):
        old = obj.fields.get(field)
        if old is None:
            obj.fields[field] = val
            self.hv += 1
        else:
            new = widen(old | val)
            if new != old:
                obj.fields[field] = new
                self.hv += 1

    def chain(self):
        return tuple(self.stack)

    def write(self, obj, field, op, node, st, fr):
        key = (obj, field, op, node)
        if self.log and key not in self.writes:
            self.writes[key] = (self.chain(), fr.func)
        if self.log and obj.kind in ("class", "module", "func"):
            self.globwrites.setdefault((obj, field, node), self.chain())
        H = st.get("$H")
        if H and self.log and obj in self.reach(H):
            self.event("handed-write", node, obj, field)

    def read(self, obj, field, node, st):
        if self.log:
            self.reads.setdefault((obj, field), node)
            H = st.get("$H") if st else None
            if H and obj.kind in MUTABLE and obj in self.reach(H):
                self.event("handed-read", node, obj, field)

    def event(self, kind, node, *data):
        key = (kind, node) + data
        if key not in self.events:
            self.events[key] = self.chain()

    def reach(self, values, mutable_only=True):
        key = (values, self.hv)
        r = self.reachcache.get(key)
        if r is not None:
            return r
        seen = set()
        work = [a for a in values if isinstance(a, Obj)]
        while work:
            o = work.pop()
            if o in seen or o.kind in ("class", "module", "func", "ext", "builtin"):
                continue
            seen.add(o)
            for v in o.fields.values():
                work.extend(a for a in v if isinstance(a, Obj) and a not in seen)
            if o.kind == "bound":
                work.append(o.meta["self"])
        r = frozenset(o for o in seen if o.kind in MUTABLE and not o.meta.get("nt"))
        if len(self.reachcache) > 5000:
            self.reachcache.clear()
        self.reachcache[key] = r
        return r

    def snapshot(self):
        return [(o, dict(o.fields)) for o in self.interned.values()], set(self.interned), self.hv

    def restore(self, snap):
        for o, f in snap[0]:
            o.fields = dict(f)
        for k in list(self.interned):
            if k not in snap[1]:
                del self.interned[k]
        self.hv += 1
        self.memo.clear(); self.recsum.clear(); self.reachcache.clear()
        self.writes.clear(); self.reads.clear(); self.events.clear()
        self.extcalls.clear(); self.globwrites.clear()

    # ----------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.intern("module", name, ("G",))
        m.meta["name"] = name
        self.modules[name] = m
        m.fields["__name__"] = vconst(name)
        m.fields["__doc__"] = STR
        fr = Frame(None, m, ("G",))
        st = {"$H": EMPTY}
        fr.hist = m.fields
        fr.ismod = True
        self.frames.append(fr)
        log, self.log = self.log, False
        self.exec_block(self.prog.trees[name].body, st, fr, modlevel=m)
        self.log = log
        self.frames.pop()
        return m

    # ----------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr, modlevel=None, trace=None):
        for s in stmts:
            if st is None:
                return None
            st = self.exec(s, st, fr)
            if trace is not None and st is not None:
                trace.append(st)
            if modlevel is not None and st is not None:
                for k, v in st.items():
                    if not k.startswith("$"):
                        modlevel.fields[k] = v
        return st

    def exec(self, s, st, fr):
        st = dict(st)
        m = getattr(self, "s_" + s.__class__.__name__, None)
        if m is None:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e, st, fr)
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    s_Import = s_ImportFrom = None

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name if a.asname else a.name.split(".")[0]
            if a.name.split(".")[0] == "sudokutools":
                for m in list(self.prog.trees):
                    if a.name == m or m.startswith(a.name):
                        pass
                v = vobj(self.load_module(top)) if top in self.prog.trees else vobj(self.ext(top))
            else:
                v = vobj(self.ext(top))
            self.setname((a.asname or top), v, st, fr, s)
        return st

    def s_ImportFrom(self, s, st, fr):
        modname = s.module or ""
        if s.level:
            base = fr.mod.meta["name"].split(".")
            if fr.mod.meta["name"] in ("sudokutools",):
                base = base + ["__init__"]
            base = base[:len(base) - s.level]
            modname = ".".join(base + ([s.module] if s.module else []))
        for a in s.names:
            if modname in self.prog.trees:
                m = self.load_module(modname)
                if a.name == "*":
                    for k, v in list(m.fields.items()):
                        if not k.startswith("_"):
                            self.setname(k, v, st, fr, s)
                    continue
                sub = modname + "." + a.name
                if a.name not in m.fields and sub in self.prog.trees:
                    v = vobj(self.load_module(sub))
                else:
                    v = m.fields.get(a.name, VANY)
            else:
                v = vobj(self.ext(modname + "." + a.name))
            self.setname(a.asname or a.name, v, st, fr, s)
        return st

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.ret = fr.ret | v
        fr.retstate = join_state(fr.retstate, st)
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is not None:
            self.ev(s.exc, st, fr)
        return None

    def s_Assert(self, s, st, fr):
        self.ev(s.test, st, fr)
        return self.narrow(s.test, st, True, fr)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                key = self.ev(t.slice, st, fr)
                for o in base:
                    if isinstance(o, Obj):
                        if o.kind == "inst" and self.class_attr(o.meta["cls"], "__delitem__"):
                            self.call_method(o, "__delitem__", [key], s, st, fr)
                        else:
                            self.write(o, "*", "del", s, st, fr)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fr)
                for o in base:
                    if isinstance(o, Obj):
                        self.write(o, self.mangle(t.attr, fr), "delattr", s, st, fr)
        return st

    def s_If(self, s, st, fr):
        v = self.ev(s.test, st, fr)
        ct, cf = self.truth(v)
        a = self.narrow(s.test, dict(st), True, fr) if ct else None
        b = self.narrow(s.test, dict(st), False, fr) if cf else None
        if a is not None:
            a = self.exec_block(s.body, a, fr)
        if b is not None:
            b = self.exec_block(s.orelse, b, fr)
        return join_state(a, b)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        rhs = self.ev(s.value, st, fr)
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            cur = self.getattr(base, t.attr, t, st, fr)
        else:
            base = self.ev(t.value, st, fr)
            key = self.ev(t.slice, st, fr)
            cur = self.subscript(base, key, t, st, fr)
        new = EMPTY
        for a in cur:
            if isinstance(a, Obj) and a.kind in ("list", "set", "dict"):
                self.write(a, "*", "aug", s, st, fr)
                if a.kind == "set" and isinstance(s.op, (ast.Sub, ast.BitAnd)):
                    pass
                elif isinstance(s.op, ast.Mult):
                    pass
                else:
                    self.store(a, "*", self.elems(rhs, s, st, fr))
                new |= vobj(a)
            elif isinstance(a, Obj) and a.kind == "inst" and self.class_attr(
                    a.meta["cls"], DUNDER_AUG.get(type(s.op), "?")):
                new |= self.call_method(a, DUNDER_AUG[type(s.op)], [rhs], s, st, fr)
            else:
                new |= self.binop(s.op, frozenset([a]), rhs, s, st, fr)
        if not cur:
            new = EMPTY
        if isinstance(t, ast.Name):
            self.setname(t.id, new, st, fr, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, new, s, st, fr)
        else:
            self.setitem(base, key, new, s, st, fr)
        return st

    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        cur = st
        brk = None
        for _ in range(40):
            hv = self.hv
            cur = dict(cur)
            el = self.elems(itv, s.iter, cur, fr)
            if not el:
                break
            body = dict(cur)
            self.assign(s.target, el, body, fr, s)
            fr.loops.append([None, None])
            r = self.exec_block(s.body, body, fr)
            b, c = fr.loops.pop()
            brk = join_state(brk, b)
            nxt = join_state(join_state(cur, r), c)
            if nxt == cur and hv == self.hv:
                break
            cur = nxt
        if s.orelse:
            cur = self.exec_block(s.orelse, cur, fr)
        return join_state(cur, brk)

    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        cur = st
        brk = None
        out = None
        for _ in range(40):
            hv = self.hv
            cur = dict(cur)
            v = self.ev(s.test, cur, fr)
            ct, cf = self.truth(v)
            out = self.narrow(s.test, dict(cur), False, fr) if cf else None
            if not ct:
                break
            body = self.narrow(s.test, dict(cur), True, fr)
            if body is None:
                break
            fr.loops.append([None, None])
            r = self.exec_block(s.body, body, fr)
            b, c = fr.loops.pop()
            brk = join_state(brk, b)
            nxt = join_state(join_state(cur, r), c)
            if nxt == cur and hv == self.hv:
                break
            cur = nxt
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        return join_state(out, brk)

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0] = join_state(fr.loops[-1][0], st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1] = join_state(fr.loops[-1][1], st)
        return None

    def s_Try(self, s, st, fr):
        trace = [dict(st)]
        body = self.exec_block(s.body, dict(st), fr, trace=trace)
        exc = None
        for t in trace:
            exc = join_state(exc, t)
        # statements that end the path (return) still may raise before: covered by trace[0..]
        if s.orelse and body is not None:
            body = self.exec_block(s.orelse, body, fr)
        res = body
        for h in s.handlers:
            hs = dict(exc)
            if h.type is not None:
                self.ev(h.type, hs, fr)
            if h.name:
                self.setname(h.name, VANY, hs, fr, h)
            res = join_state(res, self.exec_block(h.body, hs, fr))
        if s.finalbody:
            if res is None:
                self.exec_block(s.finalbody, dict(exc), fr)
            else:
                res = self.exec_block(s.finalbody, res, fr)
        return res

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        return self.exec_block(s.body, st, fr)

    def s_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr, s.name)
        v = vobj(f)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s, st, fr)
        self.setname(self.mangle(s.name, fr), v, st, fr, s)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, s, st, fr):
        dv = self.ev(d, st, fr)
        res = EMPTY
        for a in dv:
            if isinstance(a, Obj) and a.kind == "builtin" and a.meta["name"] in ("classmethod", "staticmethod", "property"):
                o = self.intern("desc", s, fr.ctx, a.meta["name"])
                o.meta["name"] = a.meta["name"]
                self.store(o, "f", v)
                res |= vobj(o)
            elif isinstance(a, Obj) and a.kind == "ext" and a.meta["name"] in (
                    "functools.lru_cache", "functools.cache", "functools.cached_property"):
                for f in v:
                    if isinstance(f, Obj):
                        f.meta["cached"] = True
                res |= v
            elif isinstance(a, Obj) and a.kind == "ext" and a.meta["name"] in (
                    "functools.total_ordering", "functools.wraps"):
                res |= v
            elif isinstance(a, Obj) and a.kind == "extres" and a.meta["name"] == "functools.lru_cache":
                for f in v:
                    if isinstance(f, Obj):
                        f.meta["cached"] = True
                res |= v
            elif isinstance(a, Obj) and a.kind == "extres":
                res |= v
            elif isinstance(a, Obj) and a.kind in ("func", "bound", "class"):
                res |= self.call(vobj(a), [v], {}, d, st, fr)
            else:
                res |= v
        return res

    def s_ClassDef(self, s, st, fr):
        c = self.intern("class", s, fr.ctx)
        c.meta["name"] = s.name
        c.meta["node"] = s
        bases = []
        for b in s.bases:
            for a in self.ev(b, st, fr):
                if isinstance(a, Obj):
                    bases.append(a)
        c.meta["bases"] = bases
        for b in bases:
            if "ntfields" in b.meta:
                c.meta["ntfields"] = b.meta["ntfields"]
        cf = Frame(None, fr.mod, fr.ctx, cls=c, closure=fr.closure if not fr.func else (fr.hist,) + fr.closure)
        cf.isclass = True
        cst = {"$H": st.get("$H", EMPTY)}
        self.frames.append(cf)
        cst = self.exec_block(s.body, cst, cf)
        self.frames.pop()
        for k, v in (cst or {}).items():
            if not k.startswith("$"):
                self.store(c, k, v)
        v = vobj(c)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s, st, fr)
        self.setname(s.name, v, st, fr, s)
        return st

    def make_func(self, node, st, fr, name):
        f = self.intern("func", node, fr.ctx)
        f.meta["name"] = name
        f.meta["node"] = node
        f.meta["mod"] = fr.mod
        f.meta["cls"] = fr.cls
        inclass = getattr(fr, "isclass", False)
        if inclass:
            clo = fr.closure
        elif fr.func is None and not fr.closure and getattr(fr, "ismod", False):
            clo = ()
        else:
            clo = (fr.hist,) + fr.closure
        f.meta["closure"] = clo
        a = node.args
        for arg, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + \
                [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
            saved = fr.ctx
            if fr.func is None:
                pass
            v = self.ev(d, st, fr)
            fr.ctx = saved
            self.store(f, "default:" + arg.arg, v)
        f.meta["isgen"] = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        f.meta["hasinner"] = any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in own_nodes(node))
        return f

    # ----------------------------------------------------------------- assignment
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_%s%s" % (fr.cls.meta["name"].lstrip("_"), name)
        return name

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.setname(self.mangle(t.id, fr), v, st, fr, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    l = self.alloc("list", e, fr, st)
                    self.store(l, "*", self.elems(v, node, st, fr))
                    self.assign(e.value, vobj(l), st, fr, node)
                else:
                    if star and i > star[0]:
                        ev = self.elems(v, node, st, fr)
                    else:
                        ev = self.unpack(v, i, n, node, st, fr)
                    self.assign(e, ev, st, fr, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, fr), t.attr, v, node, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            key = self.ev(t.slice, st, fr)
            self.setitem(base, key, v, node, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def unpack(self, v, i, n, node, st, fr):
        r = EMPTY
        for a in v:
            if isinstance(a, Obj) and a.kind in ("tuple", "list") and (i in a.fields):
                r |= a.fields[i]
                if "*" in a.fields:
                    r |= a.fields["*"]
                self.read(a, i, node, st)
            elif isinstance(a, Obj) and a.meta.get("nt"):
                names = a.meta["nt"]
                if i < len(names):
                    r |= a.fields.get(names[i], EMPTY)
            else:
                r |= self.elems(frozenset([a]), node, st, fr)
        return r

    def setname(self, name, v, st, fr, node):
        if name in fr.globals:
            self.write(fr.mod, name, "global", node, st, fr)
            self.store(fr.mod, name, v)
            return
        if name in fr.nonlocals:
            for h in fr.closure:
                if name in h:
                    h[name] = widen(h[name] | v)
                    break
        st[name] = v
        if fr.hist is not None and not getattr(fr, "ismod", False):
            o = fr.hist.get(name)
            n = v if o is None else widen(o | v)
            if n != o:
                fr.hist[name] = n
                if fr.func is not None and fr.func.meta.get("hasinner"):
                    self.hv += 1

    def getname(self, name, st, fr):
        if name in st and name not in fr.globals:
            return st[name]
        for h in fr.closure:
            if name in h:
                return h[name]
        if name in fr.mod.fields:
            self.read(fr.mod, name, None, st)
            return fr.mod.fields[name]
        if hasattr(_b, name):
            return vobj(self.builtin(name))
        if name == "__file__":
            return STR
        if name in ("raw_input",):
            return vobj(self.builtin("input"))
        return EMPTY

    # ----------------------------------------------------------------- attributes
    def mro(self, cls):
        out = [cls]
        for b in cls.meta.get("bases", ()):
            for c in self.mro(b) if b.kind == "class" else [b]:
                if c not in out:
                    out.append(c)
        return out

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.fields:
                return c.fields[name]
        return None

    def bind(self, fv, selfobj, cls):
        r = EMPTY
        for a in fv:
            if isinstance(a, Obj) and a.kind == "func":
                b = self.intern("bound", a, ("G",), selfobj)
                b.meta["func"], b.meta["self"] = a, selfobj
                r |= vobj(b)
            elif isinstance(a, Obj) and a.kind == "desc":
                if a.meta["name"] == "classmethod":
                    for f in a.fields.get("f", ()):
                        if isinstance(f, Obj) and f.kind == "func":
                            b = self.intern("bound", f, ("G",), cls)
                            b.meta["func"], b.meta["self"] = f, cls
                            r |= vobj(b)
                elif a.meta["name"] == "staticmethod":
                    r |= a.fields.get("f", EMPTY)
                else:
                    r |= vobj(self.intern("propget", a, ("G",), selfobj)) if selfobj is not None else vobj(a)
            else:
                r |= frozenset([a])
        return r

    def getattr(self, base, name, node, st, fr):
        r = EMPTY
        mname = self.mangle(name, fr)
        for a in base:
            if not isinstance(a, Obj):
                if a[0] == "any":
                    r |= VANY
                else:
                    t = a[1]
                    b = self.intern("bmeth", a, ("G",), name)
                    b.meta["recv"], b.meta["name"] = a, name
                    r |= vobj(b)
                continue
            if a.kind == "inst":
                if mname == "__class__":
                    r |= vobj(a.meta["cls"])
                    continue
                if mname == "__dict__":
                    d = self.intern("instdict", a, a.ctx)
                    r |= VANY
                    continue
                hit = False
                if mname in a.fields:
                    self.read(a, mname, node, st)
                    r |= a.fields[mname]
                    hit = True
                ca = self.class_attr(a.meta["cls"], mname)
                if ca is not None:
                    bv = self.bind(ca, a, a.meta["cls"])
                    for x in bv:
                        if isinstance(x, Obj) and x.kind == "propget":
                            for f in x.site.fields.get("f", ()):
                                r |= self.call(vobj(f), [vobj(a)], {}, node, st, fr)
                        elif not hit or True:
                            r |= frozenset([x])
                    hit = True
                if not hit:
                    if "__getattr__" in a.meta["cls"].fields:
                        r |= VANY
                    elif any(b.kind != "class" for b in self.mro(a.meta["cls"]) if b.meta.get("name") != "object"):
                        r |= VANY
                    elif a.meta.get("nt") and name in ("_replace", "_asdict", "_fields"):
                        r |= VANY
            elif a.kind == "class":
                if mname == "__name__":
                    r |= vconst(a.meta["name"])
                    continue
                ca = self.class_attr(a, mname)
                if ca is not None:
                    for x in ca:
                        if isinstance(x, Obj) and x.kind == "desc":
                            r |= self.bind(vobj(x), None, a)
                        else:
                            r |= frozenset([x])
                    self.read(a, mname, node, st)
                elif mname in ("__doc__", "__module__", "__qualname__"):
                    r |= STR
                elif mname == "__init__":
                    r |= vobj(self.builtin("object.__init__"))
                elif any(b.kind != "class" for b in self.mro(a)):
                    r |= VANY
            elif a.kind == "module":
                if mname in a.fields:
                    self.read(a, mname, node, st)
                    r |= a.fields[mname]
                else:
                    sub = a.meta["name"] + "." + name
                    if sub in self.prog.trees:
                        r |= vobj(self.load_module(sub))
            elif a.kind == "ext":
                full = a.meta["name"] + "." + name
                if full == "sys.version_info":
                    r |= vobj(self.ext(full))
                else:
                    r |= vobj(self.ext(full))
            elif a.kind == "extres":
                r |= VANY
            elif a.kind == "super":
                cls, selfo = a.meta["cls"], a.meta["self"]
                real = selfo.meta["cls"] if selfo.kind == "inst" else selfo
                mro = self.mro(real)
                after = mro[mro.index(cls) + 1:] if cls in mro else self.mro(cls)[1:]
                found = False
                for c in after:
                    if c.kind == "class" and mname in c.fields:
                        r |= self.bind(c.fields[mname], selfo, real)
                        found = True
                        break
                if not found:
                    r |= vobj(self.builtin("object." + name))
            elif a.kind in ("func", "bound"):
                if name in ("__doc__",):
                    r |= STR
                elif name == "__name__":
                    r |= STR
                elif name == "__func__" and a.kind == "bound":
                    r |= vobj(a.meta["func"])
                elif name in a.fields:
                    r |= a.fields[name]
                elif a.meta.get("cached") and name in ("cache_clear", "cache_info"):
                    r |= vobj(self.builtin("pure"))
            elif a.kind == "builtin":
                r |= vobj(self.builtin(a.meta["name"] + "." + name))
            else:
                b = self.intern("bmeth", a, ("G",), name)
                b.meta["recv"], b.meta["name"] = a, name
                r |= vobj(b)
        return r

    def setattr(self, base, name, v, node, st, fr):
        mname = self.mangle(name, fr)
        for a in base:
            if isinstance(a, Obj) and a.kind in ("inst", "class", "module", "func"):
                if a.kind == "inst":
                    ca = self.class_attr(a.meta["cls"], "__setattr__")
                    if ca:
                        self.call(self.bind(ca, a, a.meta["cls"]), [vconst(mname), v], {}, node, st, fr)
                        continue
                self.write(a, mname, "setattr", node, st, fr)
                self.store(a, mname, v)
            elif isinstance(a, Obj) and a.kind == "ext":
                self.event("ext-setattr", node, a.meta["name"] + "." + name)

    # ----------------------------------------------------------------- items
    def key_of(self, key):
        if len(key) == 1:
            a = next(iter(key))
            if isconst(a):
                return a[2] if not isinstance(a[2], bool) else a[2]
            if isinstance(a, Obj) and a.kind in ("class", "func"):
                return a
        return None

    def subscript(self, base, key, node, st, fr):
        r = EMPTY
        k = self.key_of(key)
        isslice = isinstance(getattr(node, "slice", None), ast.Slice)
        for a in base:
            if not isinstance(a, Obj):
                if a[0] == "any":
                    r |= VANY
                elif a[1] == "str":
                    r |= STR
                continue
            if a.kind in ("list", "tuple"):
                if isslice:
                    n = self.alloc(a.kind, node, fr, st, extra=("slice", a.uid))
                    self.store(n, "*", self.elems(vobj(a), node, st, fr))
                    r |= vobj(n)
                    continue
                self.read(a, "*", node, st)
                if isinstance(k, int) and not isinstance(k, bool) and a.kind == "tuple" and "*" not in a.fields:
                    n = a.meta.get("len")
                    kk = k + n if (k < 0 and n is not None) else k
                    r |= a.fields.get(kk, EMPTY)
                elif isinstance(k, int) and not isinstance(k, bool) and k in a.fields:
                    r |= a.fields[k] | a.fields.get("*", EMPTY)
                elif isinstance(k, int) and k >= 0 and not a.fields.get("*") and a.meta.get("len") is not None:
                    pass
                else:
                    r |= self.allvals(a)
            elif a.kind == "dict":
                self.read(a, "*", node, st)
                if k is not None and k in a.fields:
                    r |= a.fields[k] | a.fields.get("*", EMPTY)
                elif k is not None and a.fields.get("*") is None and "factory" not in a.fields:
                    pass
                else:
                    r |= self.allvals(a) if k is None else a.fields.get("*", EMPTY)
                if a.fields.get("factory"):
                    fv = self.call(a.fields["factory"], [], {}, node, st, fr)
                    self.store(a, "*", fv)
                    self.store(a, "$k", key)
                    self.write(a, "*", "default", node, st, fr)
                    r |= a.fields["*"]
            elif a.kind == "inst":
                if a.meta.get("nt"):
                    for v in a.fields.values():
                        r |= v
                elif self.class_attr(a.meta["cls"], "__getitem__"):
                    r |= self.call_method(a, "__getitem__", [key], node, st, fr)
                else:
                    r |= VANY
            elif a.kind in ("ext", "extres"):
                r |= VANY
            elif a.kind in ("iter",):
                r |= self.allvals(a)
        return r

    def allvals(self, a):
        r = EMPTY
        for kk, v in a.fields.items():
            if kk not in ("$k", "factory"):
                r |= v
        return r

    def setitem(self, base, key, v, node, st, fr):
        k = self.key_of(key)
        for a in base:
            if not isinstance(a, Obj):
                continue
            if a.kind == "inst":
                if self.class_attr(a.meta["cls"], "__setitem__"):
                    self.call_method(a, "__setitem__", [key, v], node, st, fr)
                continue
            if a.kind == "dict":
                self.write(a, "*", "setitem", node, st, fr)
                self.store(a, k if k is not None else "*", v)
                self.store(a, "$k", key)
            elif a.kind == "list":
                self.write(a, "*", "setitem", node, st, fr)
                tgt = node.targets[0] if isinstance(node, ast.Assign) else getattr(node, "target", None)
                if isinstance(tgt, ast.Subscript) and isinstance(tgt.slice, ast.Slice):
                    v = self.elems(v, node, st, fr)
                self.store(a, "*", v)
            elif a.kind in ("tuple", "frozenset"):
                self.event("typeerror", node, "item assignment to " + a.kind)
            elif a.kind == "ext":
                self.event("ext-setattr", node, a.meta["name"] + "[]")

    def elems(self, v, node, st, fr):
        """The elements produced by iterating v."""
        r = EMPTY
        for a in v:
            if not isinstance(a, Obj):
                if a[0] == "any":
                    r |= VANY
                elif a[1] == "str":
                    r |= STR
                continue
            if a.kind in ("list", "tuple", "set", "frozenset", "iter"):
                self.read(a, "*", node, st)
                r |= self.allvals(a)
            elif a.kind == "dict":
                self.read(a, "*", node, st)
                r |= a.fields.get("$k", EMPTY)
            elif a.kind == "gen":
                r |= self.run_gen(a, node, st, fr)
            elif a.kind == "inst":
                if a.meta.get("nt"):
                    for x in a.fields.values():
                        r |= x
                elif self.class_attr(a.meta["cls"], "__iter__"):
                    it = self.call_method(a, "__iter__", [], node, st, fr)
                    r |= self.elems(it - vobj(a), node, st, fr)
                    if a in it and self.class_attr(a.meta["cls"], "__next__"):
                        r |= self.call_method(a, "__next__", [], node, st, fr)
                elif self.class_attr(a.meta["cls"], "__getitem__"):
                    r |= self.call_method(a, "__getitem__", [INT], node, st, fr)
                else:
                    r |= VANY
            elif a.kind in ("ext", "extres"):
                r |= VANY
        return widen(r)

    # ----------------------------------------------------------------- truth / narrowing
    def truth(self, v):
        if not v:
            return (False, False)
        t = f = False
        for a in v:
            if isinstance(a, Obj):
                if a.kind in ("func", "class", "module", "bound", "ext", "builtin", "gen", "bmeth"):
                    t = True
                elif a.kind == "inst" and not (
                        self.class_attr(a.meta["cls"], "__len__") or self.class_attr(a.meta["cls"], "__bool__")
                        or a.meta.get("nt")):
                    t = True
                elif a.kind == "tuple" and a.meta.get("len") is not None and "*" not in a.fields:
                    if a.meta["len"]:
                        t = True
                    else:
                        f = True
                elif a.kind in ("list", "set", "dict", "frozenset", "tuple") and a.kind != "dict" and \
                        not self.allvals(a) and a.region == "E" and False:
                    f = True
                else:
                    t = f = True
            elif isconst(a):
                if a[2]:
                    t = True
                else:
                    f = True
            else:
                t = f = True
        return t, f

    def isinst(self, a, clsv):
        """True/False/None for isinstance(atom, class value)."""
        res = False
        for c in clsv:
            if isinstance(c, Obj) and c.kind == "tuple":
                r = self.isinst(a, self.allvals(c))
            elif not isinstance(c, Obj):
                r = None
            elif not isinstance(a, Obj):
                if a[0] == "any":
                    r = None
                elif c.kind == "builtin":
                    r = a[1] == c.meta["name"] or (a[1] == "bool" and c.meta["name"] == "int") or c.meta["name"] == "object"
                else:
                    r = False if c.kind == "class" else None
            elif a.kind == "inst":
                r = c in self.mro(a.meta["cls"]) or (c.kind == "builtin" and c.meta["name"] == "object")
                if not r and a.meta.get("nt") and c.kind == "builtin" and c.meta["name"] == "tuple":
                    r = True
            elif c.kind == "builtin":
                r = a.kind == c.meta["name"] if a.kind in ("list", "tuple", "dict", "set", "frozenset") else None
            elif c.kind == "class":
                r = False if a.kind in ("list", "tuple", "dict", "set", "frozenset") else None
            else:
                r = None
            if r:
                return True
            if r is None:
                res = None
        return res

    def narrow(self, test, st, branch, fr):
        if st is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not branch, fr)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == branch:
                for v in test.values:
                    st = self.narrow(v, st, branch, fr)
                return st
            res = None
            cur = dict(st)
            for v in test.values:
                res = join_state(res, self.narrow(v, dict(cur), branch, fr) if cur is not None else None)
                cur = self.narrow(v, dict(cur), not branch, fr) if cur is not None else None
            return res
        if isinstance(test, ast.Name) and test.id in st:
            v = st[test.id]
            keep = frozenset(a for a in v if self.truth(frozenset([a]))[0 if branch else 1])
            if not keep:
                return None
            st[test.id] = keep
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and test.left.id in st:
            op, right = test.ops[0], test.comparators[0]
            if isinstance(right, ast.Constant) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == branch
                c = const(right.value)
                v = st[test.left.id]
                if eq:
                    keep = frozenset(a for a in v if a == c or a == ANY or (
                        isinstance(a, tuple) and a[0] == "t" and a[1] == c[1]) or (
                        isinstance(a, Obj) and right.value is not None and isinstance(op, (ast.Eq, ast.NotEq)))
                        or (isconst(a) and isinstance(op, (ast.Eq, ast.NotEq)) and a[2] == right.value))
                else:
                    keep = v - frozenset([c])
                if not keep:
                    return None
                st[test.left.id] = keep
                return st
            if isinstance(op, (ast.Is, ast.IsNot)):
                rv = self.ev(right, dict(st), fr)
                eq = isinstance(op, ast.Is) == branch
                if eq and len(rv) == 1:
                    keep = frozenset(a for a in st[test.left.id] if a in rv or a == ANY)
                    if not keep:
                        return None
                    st[test.left.id] = keep
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
                and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and test.args[0].id in st:
            clsv = self.ev(test.args[1], dict(st), fr)
            keep = []
            for a in st[test.args[0].id]:
                r = self.isinst(a, clsv)
                if r is None or r == branch:
                    keep.append(a)
            if not keep:
                return None
            st[test.args[0].id] = frozenset(keep)
            return st
        return st

    # ----------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st, fr)
            return VANY
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if isinstance(e.value, (int, str, bool, float)) or e.value is None:
            return vconst(e.value)
        return VANY

    def e_Name(self, e, st, fr):
        return self.getname(self.mangle(e.id, fr), st, fr)

    def e_Tuple(self, e, st, fr):
        o = self.alloc("tuple", e, fr, st)
        star = False
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                star = True
                self.store(o, "*", self.elems(self.ev(x.value, st, fr), x, st, fr))
            elif star:
                self.store(o, "*", self.ev(x, st, fr))
            else:
                self.store(o, i, self.ev(x, st, fr))
        if not star:
            o.meta["len"] = len(e.elts)
        return vobj(o)

    def e_List(self, e, st, fr):
        o = self.alloc("list", e, fr, st)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.store(o, "*", self.elems(self.ev(x.value, st, fr), x, st, fr))
            else:
                self.store(o, "*", self.ev(x, st, fr))
        if not e.elts:
            o.fields.setdefault("*", EMPTY)
        return vobj(o)

    def e_Set(self, e, st, fr):
        o = self.alloc("set", e, fr, st)
        for x in e.elts:
            self.store(o, "*", self.ev(x.value if isinstance(x, ast.Starred) else x, st, fr))
        return vobj(o)

    def e_Dict(self, e, st, fr):
        o = self.alloc("dict", e, fr, st)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                for a in vv:
                    if isinstance(a, Obj) and a.kind == "dict":
                        for kk, x in a.fields.items():
                            self.store(o, kk, x)
                continue
            kv = self.ev(k, st, fr)
            kk = self.key_of(kv)
            self.store(o, kk if kk is not None else "*", vv)
            self.store(o, "$k", kv)
        return vobj(o)

    def e_Lambda(self, e, st, fr):
        return vobj(self.make_func(e, st, fr, "<lambda>"))

    def e_JoinedStr(self, e, st, fr):
        for v in e.values:
            self.ev(v, st, fr)
        return STR

    def e_FormattedValue(self, e, st, fr):
        self.tostr(self.ev(e.value, st, fr), e, st, fr)
        return STR

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.setname(e.target.id, v, st, fr, e)
        return v

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st, fr)
        return VANY

    def e_IfExp(self, e, st, fr):
        t, f = self.truth(self.ev(e.test, st, fr))
        r = EMPTY
        if t:
            s = self.narrow(e.test, dict(st), True, fr)
            if s is not None:
                r |= self.ev(e.body, s, fr)
                st["$H"] = st.get("$H", EMPTY) | s.get("$H", EMPTY)
        if f:
            s = self.narrow(e.test, dict(st), False, fr)
            if s is not None:
                r |= self.ev(e.orelse, s, fr)
                st["$H"] = st.get("$H", EMPTY) | s.get("$H", EMPTY)
        return r

    def e_BoolOp(self, e, st, fr):
        r = EMPTY
        s = dict(st)
        conj = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, s, fr)
            t, f = self.truth(v)
            last = i == len(e.values) - 1
            if last:
                r |= v
                break
            if conj:
                r |= frozenset(a for a in v if self.truth(frozenset([a]))[1])
                if not t:
                    break
            else:
                r |= frozenset(a for a in v if self.truth(frozenset([a]))[0])
                if not f:
                    break
            s2 = self.narrow(x, s, conj, fr)
            if s2 is None:
                break
            s = s2
        st["$H"] = st.get("$H", EMPTY) | s.get("$H", EMPTY)
        return r

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            for a in v:
                if isinstance(a, Obj) and a.kind == "inst":
                    if self.class_attr(a.meta["cls"], "__bool__"):
                        self.call_method(a, "__bool__", [], e, st, fr)
            if t and f:
                return BOOL
            if t:
                return vconst(False)
            if f:
                return vconst(True)
            return EMPTY
        if len(v) == 1 and isconst(next(iter(v))) and isinstance(e.op, ast.USub):
            c = next(iter(v))[2]
            if isinstance(c, (int, float)) and not isinstance(c, bool):
                return vconst(-c)
        return frozenset(a if a == ANY else ("t", "int") for a in v)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            r = self.compare(op, left, right, e, st, fr)
            res = r if res is None else (r if res == vconst(True) else
                                         (vconst(False) if res == vconst(False) or r == vconst(False) else BOOL))
            left = right
        return res

    def compare(self, op, l, r, node, st, fr):
        if not l or not r:
            return EMPTY
        for a in l:
            if isinstance(a, Obj) and a.kind == "inst" and type(op) in DUNDER_CMP:
                d = DUNDER_CMP[type(op)]
                if self.class_attr(a.meta["cls"], d):
                    self.call_method(a, d, [r], node, st, fr)
                elif d == "__ne__" and self.class_attr(a.meta["cls"], "__eq__"):
                    self.call_method(a, "__eq__", [r], node, st, fr)
        if isinstance(op, (ast.In, ast.NotIn)):
            for a in r:
                if isinstance(a, Obj) and a.kind == "inst" and not a.meta.get("nt"):
                    if self.class_attr(a.meta["cls"], "__contains__"):
                        self.call_method(a, "__contains__", [l], node, st, fr)
                    else:
                        self.elems(vobj(a), node, st, fr)
                elif isinstance(a, Obj) and a.kind in ("list", "set", "dict", "frozenset", "tuple"):
                    self.read(a, "*", node, st)
                elif isinstance(a, Obj) and a.kind == "gen":
                    self.elems(vobj(a), node, st, fr)
        if all(isconst(a) for a in l | r) and len(l) == 1 and len(r) == 1:
            x, y = next(iter(l))[2], next(iter(r))[2]
            try:
                if isinstance(op, (ast.Eq, ast.Is)):
                    return vconst(x == y and type(x) == type(y) if isinstance(op, ast.Is) else x == y)
                if isinstance(op, (ast.NotEq, ast.IsNot)):
                    return vconst(not (x == y))
                if isinstance(op, ast.Lt):
                    return vconst(x < y)
                if isinstance(op, ast.LtE):
                    return vconst(x <= y)
                if isinstance(op, ast.Gt):
                    return vconst(x > y)
                if isinstance(op, ast.GtE):
                    return vconst(x >= y)
                if isinstance(op, ast.In):
                    return vconst(x in y)
                if isinstance(op, ast.NotIn):
                    return vconst(x not in y)
            except TypeError:
                return BOOL
        if isinstance(op, (ast.Is, ast.IsNot)) and ANY not in l and ANY not in r:
            # None against objects / singletons
            if r == NONE or l == NONE:
                other = l if r == NONE else r
                if const(None) not in other:
                    return vconst(isinstance(op, ast.IsNot))
        # sys.version_info[0] <= 2
        return BOOL

    def e_BinOp(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        r = self.ev(e.right, st, fr)
        return self.binop(e.op, l, r, e, st, fr)

    def binop(self, op, l, r, node, st, fr):
        res = EMPTY
        for a in l:
            if a == ANY:
                res |= VANY
                continue
            if isinstance(a, Obj):
                k = a.kind
                if k in ("set", "frozenset"):
                    for b in r:
                        if isinstance(b, Obj) and b.kind in ("list", "tuple", "dict") and not isinstance(op, ast.Mod):
                            self.event("typeerror", node, "%s and %s" % (k, b.kind))
                    o = self.alloc(k, node, fr, st, extra=("bin", k))
                    self.read(a, "*", node, st)
                    self.store(o, "*", self.allvals(a))
                    if isinstance(op, (ast.BitOr, ast.BitXor)):
                        self.store(o, "*", self.elems(r, node, st, fr))
                    else:
                        self.elems(r, node, st, fr)
                    res |= vobj(o)
                elif k in ("list", "tuple"):
                    o = self.alloc(k, node, fr, st, extra=("bin", k))
                    self.read(a, "*", node, st)
                    av = self.allvals(a)
                    if isinstance(op, ast.Mult):
                        shared = frozenset(x for x in av if isinstance(x, Obj) and x.kind in MUTABLE)
                        if shared:
                            self.event("shared-elements", node, o)
                        self.store(o, "*", av)
                    else:
                        self.store(o, "*", av | self.elems(r, node, st, fr))
                    res |= vobj(o)
                elif k == "inst":
                    d = DUNDER.get(type(op))
                    if d and self.class_attr(a.meta["cls"], d):
                        res |= self.call_method(a, d, [r], node, st, fr)
                    else:
                        res |= VANY
                else:
                    res |= VANY
                continue
            t = a[1]
            if t == "str":
                if isinstance(op, ast.Mod):
                    self.tostr(r, node, st, fr)
                    res |= STR
                elif isinstance(op, ast.Add):
                    bad = [b for b in r if self.not_str(b)]
                    if bad:
                        self.event("str-concat", node, tuple(sorted(set(atype(b) for b in bad))))
                    res |= STR
                else:
                    if isinstance(op, ast.Mult):
                        res |= STR
            else:
                for b in r:
                    if isinstance(b, Obj) and b.kind in ("list", "tuple") and isinstance(op, ast.Mult):
                        o = self.alloc(b.kind, node, fr, st, extra=("bin", b.kind))
                        self.store(o, "*", self.allvals(b))
                        res |= vobj(o)
                    elif b == ANY:
                        res |= VANY
                    elif isinstance(b, tuple) and b[1] == "str" and isinstance(op, ast.Add):
                        self.event("str-concat", node, (t,))
                    elif isinstance(b, tuple) and b[1] == "str" and isinstance(op, ast.Mult):
                        res |= STR
                    elif t == "float" or (isinstance(b, tuple) and b[1] == "float") or isinstance(op, ast.Div):
                        res |= FLOAT
                    elif isconst(a) and isconst(b) and isinstance(a[2], int) and isinstance(b[2], int) \
                            and len(l) == 1 and len(r) == 1 and not isinstance(op, (ast.Pow, ast.LShift)):
                        try:
                            res |= vconst(ARITH[type(op)](a[2], b[2]))
                        except Exception:
                            res |= INT
                    else:
                        res |= INT
        return widen(res)

    def not_str(self, a):
        if isinstance(a, Obj):
            if a.kind == "inst":
                return not self.class_attr(a.meta["cls"], "__radd__") and not any(
                    b.kind != "class" and b.meta.get("name") != "object" for b in self.mro(a.meta["cls"]))
            return a.kind in ("list", "tuple", "set", "frozenset", "dict", "func", "class", "module", "bound", "gen", "iter")
        if a == ANY:
            return False
        return a[1] != "str"

    def tostr(self, v, node, st, fr, seen=()):
        """Converting v to text: run __str__/__repr__ of package classes."""
        for a in v:
            if isinstance(a, Obj):
                if a.kind == "inst" and not a.meta.get("nt"):
                    for d in ("__str__", "__repr__"):
                        if self.class_attr(a.meta["cls"], d):
                            self.call_method(a, d, [], node, st, fr)
                            break
                elif a.kind in ("tuple", "list", "set", "frozenset") and a not in seen and len(seen) < 4:
                    self.tostr(self.allvals(a), node, st, fr, seen + (a,))
        return STR

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        key = self.ev(e.slice, st, fr)
        return self.subscript(base, key, e, st, fr)

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        return self.getattr(base, e.attr, e, st, fr)

    def comp(self, e, st, fr, result):
        """Runs the generators of a comprehension; result(st) is called for each element."""
        inner = dict(st)

        def rec(i, s):
            if i == len(e.generators):
                result(s)
                return s
            g = e.generators[i]
            itv = self.ev(g.iter, s, fr)
            cur = s
            for _ in range(30):
                hv = self.hv
                cur = dict(cur)
                el = self.elems(itv, g.iter, cur, fr)
                if not el:
                    break
                body = dict(cur)
                self.assign(g.target, el, body, fr, e)
                ok = body
                for c in g.ifs:
                    t, f = self.truth(self.ev(c, ok, fr))
                    ok = self.narrow(c, ok, True, fr) if t else None
                    if ok is None:
                        break
                if ok is not None:
                    ok = rec(i + 1, ok)
                nxt = join_state(cur, ok)
                if nxt == cur and hv == self.hv:
                    break
                cur = nxt
            return cur
        out = rec(0, inner)
        st["$H"] = out.get("$H", EMPTY)

    def _compseq(self, e, st, fr, kind):
        o = self.alloc(kind, e, fr, st)
        o.fields.setdefault("*", EMPTY)

        def result(s):
            t0 = self.tickc
            v = self.ev(e.elt, s, fr)
            for a in v:
                if isinstance(a, Obj) and a.kind in MUTABLE and not a.meta.get("nt") and a.tick <= t0:
                    self.event("shared-elements", e, o)
            self.store(o, "*", v)
        self.comp(e, st, fr, result)
        return vobj(o)

    def e_ListComp(self, e, st, fr):
        return self._compseq(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self._compseq(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        return self._compseq(e, st, fr, "iter")

    def e_DictComp(self, e, st, fr):
        o = self.alloc("dict", e, fr, st)

        def result(s):
            k = self.ev(e.key, s, fr)
            v = self.ev(e.value, s, fr)
            self.store(o, "*", v)
            self.store(o, "$k", k)
        self.comp(e, st, fr, result)
        return vobj(o)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        fr.yields = fr.yields | v
        if fr.handout:
            self.hand(v, e, st)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        for a in v:
            if isinstance(a, Obj) and a.kind == "gen" and fr.handout:
                # inner generator hands out itself
                for _ in range(4):
                    h = st.get("$H")
                    x = self.run_gen(a, e, st, fr, handout=True)
                    fr.yields |= x
                    st["$H"] = st.get("$H", EMPTY) | (h or EMPTY)
                    if st["$H"] == h:
                        break
            else:
                x = self.elems(frozenset([a]), e, st, fr)
                fr.yields |= x
                if fr.handout:
                    self.hand(x, e, st)
        return NONE

    e_Await = e_YieldFrom

    def hand(self, v, node, st):
        roots = frozenset(a for a in v if isinstance(a, Obj) and self.reach(frozenset([a])))
        H = st.get("$H", EMPTY)
        old = self.reach(H) if H else EMPTY
        for a in roots:
            sh = self.reach(vobj(a)) & old
            if sh:
                self.event("handed-twice", node, a)
        for a in roots:
            self.event("handed", node, a)
        st["$H"] = H | roots

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        fv = self.ev(e.func, st, fr)
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st:
            return self.make_super(e, st, fr)
        args, star = [], EMPTY
        hasstar = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, st, fr)
                # expand tuples of known length
                one = next(iter(sv)) if len(sv) == 1 else None
                if isinstance(one, Obj) and one.kind == "tuple" and one.meta.get("len") is not None \
                        and "*" not in one.fields and not hasstar:
                    for i in range(one.meta["len"]):
                        args.append(one.fields.get(i, EMPTY))
                else:
                    hasstar = True
                    # keep positions of equal-length tuples apart
                    lens = set(o.meta.get("len") if isinstance(o, Obj) and o.kind == "tuple" and "*" not in o.fields
                               else None for o in sv)
                    if len(lens) == 1 and None not in lens and sv:
                        hasstar = False
                        for i in range(lens.pop()):
                            args.append(frozenset().union(*[o.fields.get(i, EMPTY) for o in sv]))
                    else:
                        star = star | self.elems(sv, a, st, fr)
            else:
                v = self.ev(a, st, fr)
                if hasstar:
                    star = star | v
                else:
                    args.append(v)
        kwargs, dstar = {}, None
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                dstar = (dstar or EMPTY)
                for a in v:
                    if isinstance(a, Obj) and a.kind == "dict":
                        known = False
                        for kk, x in a.fields.items():
                            if isinstance(kk, str) and kk not in ("*", "$k", "factory"):
                                kwargs[kk] = kwargs.get(kk, EMPTY) | x
                        if "*" in a.fields:
                            dstar |= a.fields["*"]
                    else:
                        dstar |= VANY
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, e, st, fr, star if hasstar else None, dstar)

    def make_super(self, e, st, fr):
        if e.args:
            cv = self.ev(e.args[0], st, fr)
            sv = self.ev(e.args[1], st, fr)
        else:
            cv = vobj(fr.cls) if fr.cls else EMPTY
            a = fr.func.meta["node"].args
            names = a.posonlyargs + a.args
            sv = st.get(names[0].arg, EMPTY) if names else EMPTY
        r = EMPTY
        for c in cv:
            for s in sv:
                if isinstance(c, Obj) and isinstance(s, Obj) and s.kind in ("inst", "class"):
                    o = self.intern("super", c, ("G",), s)
                    o.meta["cls"], o.meta["self"] = c, s
                    r |= vobj(o)
        return r

    def call_method(self, obj, name, args, node, st, fr):
        v = self.getattr(vobj(obj), name, node, st, fr)
        return self.call(v, args, {}, node, st, fr)

    def call(self, fv, args, kwargs, node, st, fr, star=None, dstar=None):
        r = EMPTY
        outs = []
        base = st
        H0 = st.get("$H", EMPTY)
        Hs = EMPTY
        anyc = False
        for f in fv:
            anyc = True
            st["$H"] = H0
            r |= self.call1(f, args, kwargs, node, st, fr, star, dstar)
            Hs |= st.get("$H", EMPTY)
        st["$H"] = Hs if anyc else H0
        return widen(r)

    def call1(self, f, args, kwargs, node, st, fr, star, dstar):
        if not isinstance(f, Obj):
            return VANY if f == ANY else EMPTY
        self.visited_calls.add(node)
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs, node, st, fr)
            if r is not None:
                return r
        k = f.kind
        if k == "func":
            return self.call_func(f, args, kwargs, node, st, fr, star, dstar)
        if k == "bound":
            return self.call_func(f.meta["func"], [vobj(f.meta["self"])] + list(args), kwargs, node, st, fr, star, dstar)
        if k == "class":
            return self.instantiate(f, args, kwargs, node, st, fr, star, dstar)
        if k == "builtin":
            from . import models
            return models.call_builtin(self, f.meta["name"], args, kwargs, node, st, fr, star, dstar)
        if k == "bmeth":
            from . import models
            return models.call_bmeth(self, f.meta["recv"], f.meta["name"], args, kwargs, node, st, fr, star, dstar)
        if k == "ext":
            from . import models
            return models.call_ext(self, f.meta["name"], args, kwargs, node, st, fr, star, dstar)
        if k == "partial":
            a = [f.fields[i] for i in range(f.meta["n"])]
            kw = {kk[3:]: v for kk, v in f.fields.items() if isinstance(kk, str) and kk.startswith("kw:")}
            kw.update(kwargs)
            return self.call(f.fields["func"], a + list(args), kw, node, st, fr, star, dstar)
        if k == "inst":
            ca = self.class_attr(f.meta["cls"], "__call__")
            if ca:
                return self.call(self.bind(ca, f, f.meta["cls"]), args, kwargs, node, st, fr, star, dstar)
            return EMPTY
        if k == "desc":
            return self.call(f.fields.get("f", EMPTY), args, kwargs, node, st, fr, star, dstar)
        return VANY if k in ("extres",) else EMPTY

    def instantiate(self, cls, args, kwargs, node, st, fr, star, dstar):
        if any(b.kind != "class" and b.meta.get("name", "").endswith(("Exception", "Error", "Warning"))
               for b in self.mro(cls)):
            o = self.alloc("inst", node, fr, st, extra=cls.uid)
            o.meta["cls"] = cls
            return vobj(o)
        o = self.alloc("inst", node, fr, st, extra=cls.uid)
        o.meta["cls"] = cls
        if "ntfields" in cls.meta and self.class_attr(cls, "__new__") is None:
            o.meta["nt"] = cls.meta["ntfields"]
            for i, n in enumerate(cls.meta["ntfields"]):
                if i < len(args):
                    self.store(o, n, args[i])
                elif n in kwargs:
                    self.store(o, n, kwargs[n])
                elif star is not None:
                    self.store(o, n, star)
                elif dstar is not None:
                    self.store(o, n, dstar)
            return vobj(o)
        init = self.class_attr(cls, "__init__")
        if init:
            self.call(self.bind(init, o, cls), args, kwargs, node, st, fr, star, dstar)
        return vobj(o)

    def bindargs(self, f, args, kwargs, star, dstar, node):
        a = f.meta["node"].args
        env = {}
        params = a.posonlyargs + a.args
        for i, p in enumerate(params):
            if i < len(args):
                env[p.arg] = args[i]
            elif p.arg in kwargs:
                env[p.arg] = kwargs[p.arg]
            else:
                v = f.fields.get("default:" + p.arg)
                if star is not None:
                    v = (v or EMPTY) | star
                if dstar is not None:
                    v = (v or EMPTY) | dstar
                if v is not None:
                    env[p.arg] = v
                else:
                    env[p.arg] = EMPTY
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs[p.arg]
            else:
                env[p.arg] = f.fields.get("default:" + p.arg, EMPTY) | (dstar or EMPTY)
        extra = args[len(params):]
        return env, extra

    def call_func(self, f, args, kwargs, node, st, fr, star=None, dstar=None, handout=False):
        if f in self.stub:
            s = self.stub[f]
            return s(self, f, args, kwargs, node, st, fr) if callable(s) else s
        env, extra = self.bindargs(f, args, kwargs, star, dstar, node)
        a = f.meta["node"].args
        ctx = (fr.ctx[0],) + (fr.ctx[1:] + (id(node) if isinstance(node, ast.AST) else node,))[-K:]
        if f.meta.get("cached"):
            self.event("cached-call", f.meta["node"], f)
            ctx = ("G", "cache", f.uid)
        tmp = Frame(f, f.meta["mod"], ctx)
        if a.vararg:
            o = self.alloc("tuple", f.meta["node"], tmp, st, extra="vararg")
            fr.allocs.add(o)
            ex = EMPTY
            for v in extra:
                ex |= v
            if star is not None:
                ex |= star
            self.store(o, "*", ex)
            env[a.vararg.arg] = vobj(o)
        if a.kwarg:
            o = self.alloc("dict", f.meta["node"], tmp, st, extra="kwarg")
            fr.allocs.add(o)
            names = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
            for k, v in kwargs.items():
                if k not in names:
                    self.store(o, k, v)
                    self.store(o, "$k", vconst(k))
            if dstar is not None:
                self.store(o, "*", dstar)
                self.store(o, "$k", STR)
            env[a.kwarg.arg] = vobj(o)
        self.visited_funcs.add(f)
        if f.meta["isgen"]:
            g = self.intern("gen", node, ctx, f.uid)
            g.meta["func"] = f
            g.meta["ctx"] = ctx
            for k, v in env.items():
                self.store(g, k, v)
            fr.allocs.add(g)
            return vobj(g)
        return self.run_body(f, env, ctx, node, st, fr, handout)[0]

    def run_gen(self, g, node, st, fr, handout=False):
        env = dict(g.fields)
        return self.run_body(g.meta["func"], env, g.meta["ctx"], node, st, fr, handout)[1]

    def run_body(self, f, env, ctx, node, st, fr, handout=False):
        """Interpret the body of f; returns (return value, yielded values)."""
        H = st.get("$H", EMPTY)
        envkey = frozenset((k, v) for k, v in env.items())
        key = (f, ctx, envkey, H, handout)
        rkey = (f, envkey)
        if rkey in self.inprog or len(self.stack) > 60:
            s = self.recsum.get(rkey)
            if s is None:
                return EMPTY, EMPTY
            st["$H"] = H | s[2]
            return s[0], s[1]
        m = self.memo.get(key)
        if m is not None and m[0] == self.hv:
            for o in m[4]:
                self.tickc += 1
                o.tick = self.tickc
            fr.allocs |= m[4]
            st["$H"] = m[3]
            return m[1], m[2]
        nf = Frame(f, f.meta["mod"], ctx, cls=f.meta.get("cls"), closure=f.meta["closure"])
        nf.handout = handout
        hk = ("hist", f, ctx)
        nf.hist = self.interned.setdefault(hk, {}) if False else self._hist(f, ctx)
        nf.globals = set()
        est = dict(env)
        for k, v in env.items():
            o = nf.hist.get(k)
            nf.hist[k] = v if o is None else widen(o | v)
        est["$H"] = H
        self.inprog[rkey] = True
        self.stack.append((f, node))
        self.frames.append(nf)
        n = f.meta["node"]
        try:
            if isinstance(n, ast.Lambda):
                nf.ret = self.ev(n.body, est, nf)
                end = est
            else:
                for x in own_nodes(n):
                    if isinstance(x, ast.Global):
                        nf.globals.update(x.names)
                    elif isinstance(x, ast.Nonlocal):
                        nf.nonlocals.update(x.names)
                end = self.exec_block(n.body, est, nf)
                if end is not None and not f.meta["isgen"]:
                    nf.ret = nf.ret | NONE
        finally:
            self.frames.pop()
            self.stack.pop()
            del self.inprog[rkey]
        fin = join_state(end, nf.retstate)
        Hout = fin.get("$H", EMPTY) if fin is not None else H
        st["$H"] = Hout
        ret, ys = widen(nf.ret), widen(nf.yields)
        old = self.recsum.get(rkey)
        new = (ret, ys, Hout) if old is None else (widen(ret | old[0]), widen(ys | old[1]), Hout | old[2])
        if new != old:
            self.recsum[rkey] = new
            if old is not None or self.uses_recursion(f):
                self.hv += 1
        al = frozenset(nf.allocs)
        fr.allocs |= al
        self.memo[key] = (self.hv, ret, ys, Hout, al)
        return ret, ys

    def uses_recursion(self, f):
        r = f.meta.get("mayrec")
        if r is None:
            nm = f.meta["name"]
            r = any((isinstance(x, ast.Name) and x.id == nm) or (isinstance(x, ast.Attribute) and x.attr == nm)
                    for x in ast.walk(f.meta["node"]))
            f.meta["mayrec"] = r
        return r

    def _hist(self, f, ctx):
        d = f.meta.setdefault("hists", {})
        return d.setdefault(ctx, {})

    # ----------------------------------------------------------------- entries
    def fixpoint(self, thunk, limit=25):
        """Repeat thunk(frame, state) until the heap is stable; the last result is returned."""
        for _ in range(limit):
            hv = self.hv
            fr = Frame(None, self.modules[sorted(self.modules)[0]], ("E",))
            st = {"$H": EMPTY}
            self.memo.clear()
            r = thunk(fr, st)
            if self.hv == hv:
                return r
        raise AnalysisBroken("heap analysis did not stabilise")

    def lookup(self, mod, qual):
        m = self.modules.get(mod)
        if m is None:
            raise AnalysisBroken("module %s not found" % mod)
        v = None
        cur = m
        for part in qual.split("."):
            if cur.kind == "class":
                v = self.class_attr(cur, part)
            else:
                v = cur.fields.get(part)
            if not v:
                raise AnalysisBroken("anchor %s.%s not found" % (mod, qual))
            objs = [a for a in v if isinstance(a, Obj)]
            if not objs:
                raise AnalysisBroken("anchor %s.%s is not a function or class" % (mod, qual))
            cur = objs[0]
        return cur

    def describe_chain(self, chain):
        return " > ".join("%s" % (f.meta["name"]) for f, _ in chain)


def own_nodes(fn):
    """AST nodes of a function without those of nested functions (comprehensions included)."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    work = list(body)
    while work:
        n = work.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        work.extend(ast.iter_child_nodes(n))


DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitAnd: "__and__", ast.BitOr: "__or__",
          ast.BitXor: "__xor__", ast.Mod: "__mod__", ast.FloorDiv: "__floordiv__", ast.Div: "__truediv__"}
DUNDER_AUG = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.BitAnd: "__iand__", ast.BitOr: "__ior__", ast.Mult: "__imul__"}
DUNDER_CMP = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
ARITH = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
         ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b}
