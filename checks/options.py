"""C24: every parameter of a public function can influence what the call does.  Backward strong-liveness ("faint variables"), interprocedural."""
import ast

from sa.program import enclosing, snippet
from sa.report import Report

RULE = ("interprocedural strong liveness: the value a parameter has on entry must reach a result, a raised error, a change of an object or a decision about "
        "those; values that only flow into variables, parameters and decisions without such an effect do not count (least fixpoint over all functions). "
        "No statement may replace a parameter by a value independent of it before it was ever looked at, and no branch may call a helper without the "
        "option that the parallel branch forwards to the same helper")
SHELLS = ("sudokutools.shell", "sudokutools.__main__")


class Fn(object):
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        a = node.args
        self.pos = [p.arg for p in a.posonlyargs + a.args]
        self.params = self.pos + [p.arg for p in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        parent = getattr(node, "_parent", None)
        self.cls = parent if isinstance(parent, ast.ClassDef) else None
        deco = [ast.unparse(d) for d in node.decorator_list]
        self.static = "staticmethod" in deco
        self.bound = 1 if self.cls is not None and not self.static else 0
        self.live = set()


class Liveness(object):
    def __init__(self, prog):
        self.prog = prog
        self.fns = [Fn(m, q, n) for m, q, n in prog.functions()]
        self.by_node = {id(f.node): f for f in self.fns}
        self.methods, self.plain = {}, {}
        for f in self.fns:
            if f.cls is not None:
                self.methods.setdefault(f.node.name, []).append(f)
            elif "." not in f.qual:
                self.plain[(f.mod, f.node.name)] = f
        self.classes = {}
        for m, t in prog.trees.items():
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[(m, n.name)] = n
        self.imports, self.modules = {}, {}
        for m, t in prog.trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        self.imports[(m, a.asname or a.name)] = (n.module, a.name)
                        if n.module + "." + a.name in prog.trees:
                            self.modules[(m, a.asname or a.name)] = n.module + "." + a.name
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            self.modules[(m, a.asname)] = a.name
                        self.modules[(m, a.name)] = a.name
        self.rounds = 0
        changed = True
        while changed:
            changed = False
            self.rounds += 1
            for f in self.fns:
                lv = self.entry(f)
                if lv != f.live:
                    f.live = lv
                    changed = True

    # ---- callees
    def resolve(self, mod, name):
        for _ in range(5):
            if (mod, name) in self.plain:
                return self.plain[(mod, name)]
            if (mod, name) in self.classes:
                return self.classes[(mod, name)]
            if (mod, name) not in self.imports:
                return None
            mod, name = self.imports[(mod, name)]
        return None

    def callees(self, call):
        """[(Fn, number of leading parameters that are not in call.args)] or None when unknown / outside"""
        f = call.func
        if isinstance(f, ast.Name):
            if self.local(call, f.id):
                return None
            r = self.resolve(call._mod, f.id)
            if isinstance(r, Fn):
                return [(r, 0)]
            if isinstance(r, ast.ClassDef):
                i = self.find_init(call._mod, f.id)
                return [(i, 1)] if i is not None else None
            return None
        if isinstance(f, ast.Attribute):
            b = f.value
            m = self.modules.get((call._mod, ast.unparse(b))) if isinstance(b, (ast.Name, ast.Attribute)) else None
            if m is not None:
                r = self.resolve(m, f.attr) if m in self.prog.trees else None
                if isinstance(r, ast.ClassDef):
                    r = self.find_init(m, f.attr)
                    return [(r, 1)] if r is not None else None
                return [(r, 0)] if isinstance(r, Fn) else None
            if isinstance(b, ast.Name):
                r = self.resolve(call._mod, b.id) if not self.local(call, b.id) else None
                if isinstance(r, ast.ClassDef):
                    ms = [m for m in self.methods.get(f.attr, []) if m.cls is r]
                    if ms:
                        return [(m, 1 if is_class(m) else 0) for m in ms]
            if isinstance(b, ast.Constant) or f.attr in STRLIKE:
                return None
            ms = self.methods.get(f.attr)
            if ms:
                return [(m, m.bound) for m in ms]
        return None

    def find_init(self, mod, name):
        for _ in range(6):
            c = self.resolve(mod, name)
            if not isinstance(c, ast.ClassDef):
                return None
            for f in self.methods.get("__init__", []):
                if f.cls is c:
                    return f
            if not c.bases or not isinstance(c.bases[0], ast.Name):
                return None
            mod, name = c._mod, c.bases[0].id
        return None

    def local(self, node, name):
        n = getattr(node, "_parent", None)
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                if name in [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]:
                    return True
                if isinstance(n, ast.FunctionDef) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                    return True
            n = getattr(n, "_parent", None)
        return False

    # ---- expressions: names whose value matters when the value of e matters
    def uses(self, e):
        out = set()
        if e is None:
            return out
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Call):
                out |= self.call_uses(n, True)
            elif isinstance(n, ast.Lambda):
                out |= self.uses(n.body) - set(p.arg for p in n.args.args)
                stack.extend(n.args.defaults)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = set()
                for g in n.generators:
                    bound |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                inner = set()
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    inner |= self.uses(x)
                for i, g in enumerate(n.generators):
                    for x in g.ifs:
                        inner |= self.uses(x)
                    if i:
                        inner |= self.uses(g.iter)
                out |= inner - bound
                out |= self.uses(n.generators[0].iter)
            else:
                stack.extend(ast.iter_child_nodes(n))
        return out

    def call_uses(self, c, value):
        """names that matter for a call: for its value (value=True) or only for its effects"""
        cs = self.callees(c)
        out = self.uses(c.func.value) if isinstance(c.func, ast.Attribute) else self.uses(c.func)
        if cs is None:
            for a in c.args:
                out |= self.uses(a)
            for k in c.keywords:
                out |= self.uses(k.value)
            return out
        for f, skip in cs:
            star = False
            for i, a in enumerate(c.args):
                if isinstance(a, ast.Starred):
                    star = True
                if star:
                    if f.live - set(f.pos[:i + skip]):
                        out |= self.uses(a)
                    continue
                j = i + skip
                if j < len(f.pos):
                    if f.pos[j] in f.live:
                        out |= self.uses(a)
                elif f.vararg is None or f.vararg in f.live:
                    out |= self.uses(a)
            for k in c.keywords:
                if k.arg is None:
                    if f.live:
                        out |= self.uses(k.value)
                elif k.arg in f.params:
                    if k.arg in f.live:
                        out |= self.uses(k.value)
                elif f.kwarg is None or f.kwarg in f.live:
                    out |= self.uses(k.value)
        return out

    def effects(self, e):
        """names that matter because evaluating e does something (calls, yields)"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                out |= self.uses(n.value) if n.value is not None else set()
            elif isinstance(n, ast.Call) and not harmless(n):
                out |= self.call_uses(n, False)
        return out

    # ---- statements
    def entry(self, f):
        node = f.node
        lv, _ = self.block(node.body, set(), (set(), set(), set()))
        return lv & set(f.params)

    def block(self, stmts, out, jumps):
        """(names live before, does the block do anything that matters)"""
        act = False
        for s in reversed(stmts):
            out, a = self.stmt(s, out, jumps)
            act = act or a
        return out, act

    def stmt(self, s, out, jumps):
        brk, cont, exc = jumps
        out = set(out) | exc
        if isinstance(s, ast.Return):
            return (self.uses(s.value) if s.value is not None else set()) | exc, True
        if isinstance(s, ast.Raise):
            return self.uses(s.exc) | self.uses(s.cause) | exc, True
        if isinstance(s, ast.Break):
            return set(brk) | exc, True
        if isinstance(s, ast.Continue):
            return set(cont) | exc, True
        if isinstance(s, ast.Expr):
            e = self.effects(s.value)
            act = any(isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom)) for n in ast.walk(s.value))
            return out | e | subscripts(s.value, self), act
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return out, False
            return self.assign(targets, [s.value], out)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in out:
                    return out | self.uses(s.value) | {s.target.id}, True
                return out | self.effects(s.value), bool(self.effects(s.value))
            return out | self.uses(s.value) | self.uses(s.target), True
        if isinstance(s, ast.If):
            b, ab = self.block(s.body, out, jumps)
            o, ao = self.block(s.orelse, out, jumps)
            act = ab or ao
            lv = b | o | out if not (s.orelse) else b | o
            if act or lv != out and (b != out or o != out):
                lv = lv | (self.uses(s.test) if act else set())
            return lv | self.effects(s.test), act or bool(self.effects(s.test))
        if isinstance(s, ast.While):
            lv = set(out)
            act = False
            while True:
                o, _ = self.block(s.orelse, out, jumps)
                b, act = self.block(s.body, lv, (out, lv, exc))
                new = lv | b | o | out
                if act or not isinstance(s.test, ast.Constant):
                    new = new | self.uses(s.test)
                if new == lv:
                    break
                lv = new
            return lv, True
        if isinstance(s, (ast.For, ast.AsyncFor)):
            names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            lv = set(out)
            while True:
                o, ao = self.block(s.orelse, out, jumps)
                b, ab = self.block(s.body, lv, (out, lv, exc))
                act = ab or ao
                new = lv | (b - names) | o | out
                if new == lv:
                    break
                lv = new
            need = act or bool(b & names)
            if need or names & out:
                lv = lv | self.uses(s.iter)
                act = True
            return lv | self.effects(s.iter), act or bool(self.effects(s.iter))
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            f, af = self.block(s.finalbody, out, jumps)
            hs, ah = set(), False
            for h in s.handlers:
                b, a = self.block(h.body, f, jumps)
                hs |= b - ({h.name} if h.name else set())
                ah = True
                hs |= self.uses(h.type) if h.type is not None else set()
            o, ao = self.block(s.orelse, f, jumps)
            b, ab = self.block(s.body, o, (brk | hs, cont | hs, exc | hs))
            # what the body evaluates may raise into a handler that matters
            if s.handlers:
                for x in s.body:
                    for n in ast.walk(x):
                        if isinstance(n, ast.expr):
                            ab = True
                            b |= (self.uses(n) if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Tuple)) else set()) - stored_before(s.body, x)
            return b | hs, ab or ah or ao or af
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b, a = self.block(s.body, out, jumps)
            for i in s.items:
                b = b | self.uses(i.context_expr)
            return b, True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if s.name in out:
                f = self.by_node.get(id(s))
                free = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                if f is not None:
                    free -= set(f.params)
                return (out - {s.name}) | free, True
            return out, False
        if isinstance(s, ast.Assert):
            return out | self.uses(s.test) | (self.uses(s.msg) if s.msg else set()), True
        if isinstance(s, ast.Delete):
            r = set(out)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    r |= self.uses(t)
            return r, True
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return out, False
        r = set(out)
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                r.add(n.id)
        return r, True

    def assign(self, targets, values, out):
        names, stores = set(), set()
        heap = False
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    heap = True
                    stores |= self.uses(x)
        # element by element for parallel tuples
        if len(targets) == 1 and isinstance(targets[0], ast.Tuple) and len(values) == 1 and isinstance(values[0], ast.Tuple) and \
                len(targets[0].elts) == len(values[0].elts) and not heap and not any(isinstance(x, ast.Starred) for x in targets[0].elts + values[0].elts):
            lv = out - names
            act = False
            for t, v in zip(targets[0].elts, values[0].elts):
                ns = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if ns & out:
                    lv |= self.uses(v)
                    act = True
                else:
                    lv |= self.effects(v)
            return lv, act
        v = values[0]
        if heap or names & out or unpacks(targets):
            used = self.uses(v) if heap or names & out else self.effects(v)
            return (out - names) | used | stores, heap or bool(names & out)
        e = self.effects(v)
        return (out - names) | e, bool(e)


STRLIKE = {"join", "split", "strip", "format", "replace", "append", "add", "discard", "extend", "sort", "items", "values", "keys", "get", "pop", "update", "startswith", "endswith",
           "partition", "write", "flush", "remove", "index", "insert", "ljust", "rjust", "center"}
PURE = {"len", "str", "repr", "set", "frozenset", "tuple", "list", "dict", "range", "sorted", "min", "max", "sum", "bool", "isinstance", "hasattr", "id", "type", "reversed",
        "enumerate", "zip", "any", "all", "abs", "map", "filter"}


def harmless(c):
    return isinstance(c.func, ast.Name) and c.func.id in PURE


def unpacks(targets):
    return False


def subscripts(e, L):
    return set()


def is_class(m):
    return any("classmethod" in ast.unparse(d) for d in m.node.decorator_list)


def stored_before(body, stmt):
    out = set()
    for s in body:
        if s is stmt:
            break
        if isinstance(s, ast.Assign):
            out |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return out


def abstract(fn):
    """Only there to be overridden: raises NotImplementedError, or nothing but a docstring / pass."""
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Pass) or isinstance(s, ast.Raise) and "NotImplemented" in ast.unparse(s) or
               isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == "NotImplemented" for s in body)


def public_fn(f):
    parts = f.qual.split(".")
    n = parts[-1]
    if any(p.startswith("_") and not (p.startswith("__") and p.endswith("__")) for p in parts):
        return False
    p = getattr(f.node, "_parent", None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            return False
        p = getattr(p, "_parent", None)
    return True


def depends(fn, e, name, depth=0, seen=()):
    """May the value of e depend on parameter `name` (through local variables, flow-insensitively)?"""
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            if n.id == name:
                return True
            if depth < 6 and n.id not in seen:
                for d in definitions(fn, n.id):
                    if depends(fn, d, name, depth + 1, seen + (n.id,)):
                        return True
    return False


def definitions(fn, name):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for t in n.targets for x in ast.walk(t)):
            out.append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            out.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            out.append(n.iter)
    return out


def conditions(node, fn):
    """Tests and handlers a statement is nested in (and tests whose branch before it leaves the function)."""
    out = []
    child, n = node, getattr(node, "_parent", None)
    while n is not None and child is not fn:
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append(n.test)
        elif isinstance(n, ast.For):
            out.append(n.iter)
        elif isinstance(n, ast.ExceptHandler):
            t = n._parent
            out.extend(x for s in t.body for x in ast.walk(s) if isinstance(x, ast.expr))
        elif isinstance(n, ast.Try) and child not in n.body:
            out.extend(x for s in n.body for x in ast.walk(s) if isinstance(x, ast.expr))
        child, n = n, getattr(n, "_parent", None)
    return out


def order(fn):
    pos = {}
    for i, n in enumerate(ast.walk(fn)):
        pos[id(n)] = (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
    return pos


def overwritten(f, p):
    """Statements that replace parameter p by an independent value although nothing looked at it before."""
    fn = f.node
    out = []
    for n in ast.walk(fn):
        tgt, val = None, None
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p or isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == p for x in t.elts) for t in n.targets):
            val = n.value
        elif isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.target)):
            val = n.iter
        if val is None or enclosing_fn(n) is not fn:
            continue
        if depends(fn, val, p):
            continue
        if any(depends(fn, c, p) for c in conditions(n, fn)):
            continue
        # a look at p earlier in the text (outside of what this statement excludes) may be the use
        early = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load)
                 and (x.lineno, x.col_offset) < (n.lineno, n.col_offset) and not exclusive(x, n)]
        if early:
            continue
        out.append(n)
    return out


def exclusive(a, b):
    """In different branches of one if?"""
    chain = {}
    child, n = a, getattr(a, "_parent", None)
    while n is not None:
        if isinstance(n, ast.If):
            chain[id(n)] = 0 if child in n.body else 1 if child in n.orelse else 2
        child, n = n, getattr(n, "_parent", None)
    child, n = b, getattr(b, "_parent", None)
    while n is not None:
        if isinstance(n, ast.If) and id(n) in chain:
            mine = 0 if child in n.body else 1 if child in n.orelse else 2
            if {mine, chain[id(n)]} == {0, 1}:
                return True
        child, n = n, getattr(n, "_parent", None)
    return False


def enclosing_fn(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        n = getattr(n, "_parent", None)
    return n


def passed(L, call, callee, skip, q):
    """expression given for parameter q of callee; None if omitted; False if unclear"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return False
    for k in call.keywords:
        if k.arg == q:
            return k.value
    if q in callee.pos:
        i = callee.pos.index(q) - skip
        if 0 <= i < len(call.args):
            return call.args[i]
    return None


def optional(f, p):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    return p in ps[len(ps) - len(a.defaults):] or p in [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]


def siblings(L, f):
    """Parallel calls of one helper in different branches: (call that forwards p, call that drops it, p)"""
    fn = f.node
    calls = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and enclosing_fn(n) is fn:
            cs = L.callees(n)
            if cs and len(cs) == 1:
                calls.setdefault(id(cs[0][0]), (cs[0], []))[1].append(n)
    for (callee, skip), cs in calls.values():
        for q in callee.params:
            if q not in callee.live:
                continue
            for a in cs:
                x = passed(L, a, callee, skip, q)
                if x is None or x is False:
                    continue
                ps = [p for p in f.params if depends(fn, x, p) and p not in f.pos[:f.bound]]
                direct = [p for p in ps if any(isinstance(y, ast.Name) and y.id == p for y in ast.walk(x))]
                if len(direct) != 1 or len([y for y in ast.walk(x) if isinstance(y, ast.Name)]) > 2:
                    continue
                p = direct[0]
                for b in cs:
                    if b is a or not exclusive(a, b):
                        continue
                    y = passed(L, b, callee, skip, q)
                    if y is False:
                        continue
                    if (y is None or isinstance(y, ast.Constant) or optional(f, p) and not depends(fn, y, p)) and not any(depends(fn, c, p) for c in conditions(b, fn)):
                        yield a, b, p, q, callee


def c24(prog):
    rep = Report("C24", prog, RULE, ["a parameter that reaches a decision or a call of an outside function influences the result (may-dependence)",
                                     "methods are resolved by name"])
    L = Liveness(prog)
    TX = Text(L)
    rep.count("functions analysed", len(L.fns))
    rep.count("rounds of the interprocedural fixpoint", L.rounds)
    for f in L.fns:
        if f.mod in SHELLS or not public_fn(f):
            continue
        name = "%s.%s" % (f.mod.split(".")[-1], f.qual)
        if abstract(f.node):
            rep.count("abstract functions")
            continue
        ps = f.params[f.bound:]
        interface = dunder(f.node.name)
        for p in ps:
            if p.startswith("_") or interface:
                continue
            rep.count("parameters")
            con = "%s(%s)" % (name, p)
            if p not in f.live and overrides(L, f, p):
                rep.count("parameters required by an interface")
                continue
            if p not in f.live:
                rep.violate("influences-the-call", con, "the value given for %s reaches no result, error, change or decision" % p, prog.loc(f.node))
                continue
            ow = overwritten(f, p)
            if ow:
                rep.violate("not-overwritten", con, "%s replaces the value given for %s without looking at it" % (snippet(ow[0]), p), prog.loc(ow[0]))
                continue
            rep.holds("influences-the-call", con)
            if text_option(f, p):
                r = TX.flow(f, p)
                rep.check(bool(r), "text-option-is-used-as-text", con, ", ".join(sorted(r)),
                          "the text given for %s neither gets into what is returned nor is it matched against a text (only its length or presence matters)" % p, prog.loc(f.node))
        for a, b, p, q, callee in siblings(L, f):
            rep.violate("forwarded-in-every-branch", "%s(%s)" % (name, p), "%s forwards %s to %s, the parallel %s does not" % (snippet(a), p, callee.qual, snippet(b)), prog.loc(b))
    return rep


def overrides(L, f, p):
    """An implementation of an interface has to accept what other implementations need."""
    c, seen = f.cls, 0
    if c is None:
        return False
    line = set()
    while c is not None and seen < 8:
        seen += 1
        if not c.bases or not isinstance(c.bases[0], ast.Name):
            break
        c = L.resolve(c._mod, c.bases[0].id)
        if not isinstance(c, ast.ClassDef):
            break
        line.add(id(c))
        for g in L.methods.get(f.node.name, []):
            if g.cls is c and p in g.params:
                return True
    return False


MATCH = {"split", "rsplit", "partition", "rpartition", "index", "rindex", "find", "rfind", "count", "startswith", "endswith", "match", "search", "fullmatch", "findall",
         "finditer", "translate", "maketrans", "splitlines", "isdigit", "replace", "sub", "subn"}
KEEP = {"join", "format", "strip", "lstrip", "rstrip", "upper", "lower", "rjust", "ljust", "center", "zfill", "replace", "title", "copy", "pop", "get", "split", "encode", "decode"}
NOTEXT = {"len", "bool", "isinstance", "hasattr", "id", "hash", "type", "callable", "int", "ord", "abs"}


class Text(object):
    """Explicit flow of a text option: does it end up in the returned text ("ret"), or is it matched against / used on another text ("matched")?"""

    def __init__(self, L):
        self.L = L
        self.memo = {}

    def flow(self, f, p, depth=0):
        k = (id(f), p)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        if depth > 8:
            return set()
        tainted = {p}
        out = set()
        for _ in range(20):
            n0 = (len(tainted), len(out))
            for n in ast.walk(f.node):
                self.node(f, n, tainted, out, depth)
            if (len(tainted), len(out)) == n0:
                break
        self.memo[k] = out
        return out

    def node(self, f, n, tainted, out, depth):
        def add(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    tainted.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add("stored")
        T = lambda e: e is not None and self.text(e, tainted, out, depth)
        if isinstance(n, ast.Assign):
            if T(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        add(t.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if T(b):
                                add(a)
                    else:
                        add(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if T(n.value):
                add(n.target)
        elif isinstance(n, (ast.For, ast.comprehension)):
            if T(n.iter):
                add(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None and T(n.context_expr):
                add(n.optional_vars)
        elif isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)):
            if T(n.value):
                out.add("ret")
        elif isinstance(n, ast.Raise):
            if n.exc is not None and T(n.exc):
                pass
        elif isinstance(n, ast.Compare):
            xs = [n.left] + list(n.comparators)
            for a, o, b in zip(xs, n.ops, xs[1:]):
                none = any(isinstance(y, ast.Constant) and (y.value is None or y.value == "") for y in (a, b))
                if isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and not none and (T(a) or T(b)):
                    out.add("matched")
                if isinstance(o, (ast.In, ast.NotIn)) and T(a):
                    out.add("matched")
        elif isinstance(n, ast.Subscript):
            if T(n.slice):
                out.add("matched")
        elif isinstance(n, ast.Call):
            self.call(n, tainted, out, depth)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add", "insert", "update", "appendleft") and any(T(a) for a in n.args):
                add(n.func.value)

    def call(self, c, tainted, out, depth):
        """effects of a call on the summary; returns whether its value carries the text"""
        T = lambda e: self.text(e, tainted, out, depth)
        cs = self.L.callees(c)
        args = list(c.args) + [k.value for k in c.keywords]
        name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
        if cs:
            val = False
            for f, skip in cs:
                pairs = []
                for i, a in enumerate(c.args):
                    if isinstance(a, ast.Starred):
                        if T(a.value):
                            out.add("matched")
                            val = True
                        continue
                    j = i + skip
                    q = f.pos[j] if j < len(f.pos) else f.vararg
                    pairs.append((q, a))
                for k in c.keywords:
                    pairs.append((k.arg if k.arg in f.params else f.kwarg, k.value))
                for q, a in pairs:
                    if q is None or not T(a):
                        continue
                    r = self.flow(f, q, depth + 1)
                    out |= r & {"matched", "stored"}
                    if "ret" in r or "stored" in r:
                        val = True
            return val
        if isinstance(c.func, ast.Attribute):
            recv = T(c.func.value)
            targ = [a for a in args if T(a)]
            if name in MATCH and (recv or targ):
                if name not in ("replace", "sub", "subn") or targ and args and T(args[0]):
                    out.add("matched")
            if name in KEEP or name in MATCH:
                return recv or bool(targ) and name in ("join", "format", "replace", "rjust", "ljust", "center", "get", "sub", "subn")
            if targ and name not in ("append", "extend", "add", "insert", "update", "appendleft", "remove", "discard"):
                out.add("matched")
            return recv or bool(targ)
        if name in NOTEXT:
            return False
        if name in PURE or name in ("str", "iter", "next", "getattr", "format"):
            return any(T(a) for a in args)
        if any(T(a) for a in args):
            out.add("matched")
            return True
        return False

    def text(self, e, tainted, out, depth):
        T = lambda x: x is not None and self.text(x, tainted, out, depth)
        if isinstance(e, ast.Name):
            return e.id in tainted
        if isinstance(e, ast.Constant) or isinstance(e, ast.Compare):
            return False
        if isinstance(e, ast.BinOp):
            return T(e.left) or T(e.right)
        if isinstance(e, ast.Call):
            return self.call(e, tainted, out, depth)
        if isinstance(e, ast.JoinedStr):
            return any(T(x) for x in e.values)
        if isinstance(e, ast.FormattedValue):
            return T(e.value)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return any(T(x) for x in e.elts)
        if isinstance(e, ast.Starred):
            return T(e.value)
        if isinstance(e, ast.Dict):
            return any(T(x) for x in e.values) or any(T(x) for x in e.keys if x is not None)
        if isinstance(e, ast.IfExp):
            return T(e.body) or T(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(T(x) for x in e.values)
        if isinstance(e, ast.Subscript):
            return T(e.value)
        if isinstance(e, ast.Attribute):
            return T(e.value)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return T(e.elt)
        if isinstance(e, ast.DictComp):
            return T(e.value) or T(e.key)
        if isinstance(e, ast.NamedExpr):
            return T(e.value)
        if isinstance(e, ast.Lambda):
            return T(e.body)
        return False


def text_option(f, p):
    import re
    a = f.node.args
    ps = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    if p not in d:
        return False
    if isinstance(d[p], ast.Constant) and isinstance(d[p].value, str):
        return True
    doc = ast.get_docstring(f.node) or ""
    return bool(re.search(r"\b%s\s*\((str|char|string)\b" % re.escape(p), doc)) or "sep" in p.split("_")


def dunder(n):
    return n.startswith("__") and n.endswith("__") and n not in ("__init__", "__call__", "__new__")
