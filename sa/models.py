"""Effect and type models of the builtins and library functions the package may use."""
import ast

from .heap import (ANY, BOOL, EMPTY, FLOAT, INT, MUTABLE, NONE, Obj, PURE_TYPES, STR, VANY, atype, isconst,
                   vconst, vobj, vtype, widen)


def callv(H, f, args, node, st, fr):
    return H.call(f, list(args), {}, node, st, fr)


def newc(H, kind, elems, node, st, fr, extra=None):
    o = H.alloc(kind, node, fr, st, extra=extra)
    o.fields.setdefault("*", EMPTY)
    H.store(o, "*", elems)
    return vobj(o)


def first(args, i=0):
    return args[i] if len(args) > i else EMPTY


def call_builtin(H, name, args, kwargs, node, st, fr, star, dstar):
    a0 = first(args)
    if star is not None:
        a0 = a0 | star
    allargs = list(args) + ([star] if star else [])
    if name in ("list", "set", "frozenset", "tuple"):
        el = H.elems(a0, node, st, fr) if args or star else EMPTY
        if name == "tuple" and len(a0) == 1:
            t = next(iter(a0))
            if isinstance(t, Obj) and t.kind == "tuple" and "*" not in t.fields:
                return a0
        return newc(H, name, el, node, st, fr, extra=name)
    if name == "sorted":
        el = H.elems(a0, node, st, fr)
        if "key" in kwargs:
            callv(H, kwargs["key"], [el], node, st, fr)
        else:
            for a in el:
                if isinstance(a, Obj) and a.kind == "inst" and not a.meta.get("nt") and H.class_attr(a.meta["cls"], "__lt__"):
                    H.call_method(a, "__lt__", [el], node, st, fr)
        return newc(H, "list", el, node, st, fr, extra=name)
    if name == "reversed":
        return newc(H, "iter", H.elems(a0, node, st, fr), node, st, fr, extra=name)
    if name == "dict":
        o = H.alloc("dict", node, fr, st, extra="dict")
        for a in a0:
            if isinstance(a, Obj) and a.kind == "dict":
                for k, v in a.fields.items():
                    if k != "factory":
                        H.store(o, k, v)
            else:
                for p in H.elems(frozenset([a]), node, st, fr):
                    if isinstance(p, Obj) and p.kind in ("tuple", "list"):
                        H.store(o, "$k", H.unpack(vobj(p), 0, 2, node, st, fr))
                        H.store(o, "*", H.unpack(vobj(p), 1, 2, node, st, fr))
                    elif p == ANY:
                        H.store(o, "$k", VANY)
                        H.store(o, "*", VANY)
        for k, v in kwargs.items():
            H.store(o, k, v)
            H.store(o, "$k", vconst(k))
        return vobj(o)
    if name == "range" or name == "xrange":
        return newc(H, "iter", INT, node, st, fr, extra=name)
    if name == "enumerate":
        el = H.elems(a0, node, st, fr)
        t = H.alloc("tuple", node, fr, st, extra="pair")
        H.store(t, 0, INT); H.store(t, 1, el); t.meta["len"] = 2
        return newc(H, "iter", vobj(t) if el else EMPTY, node, st, fr, extra=name)
    if name == "zip":
        t = H.alloc("tuple", node, fr, st, extra="pair")
        els = [H.elems(a, node, st, fr) for a in allargs]
        for i, e in enumerate(els):
            H.store(t, i, e)
        t.meta["len"] = len(els)
        return newc(H, "iter", vobj(t) if all(els) else EMPTY, node, st, fr, extra=name)
    if name == "map":
        els = [H.elems(a, node, st, fr) for a in args[1:]]
        v = callv(H, a0, els, node, st, fr) if all(els) else EMPTY
        return newc(H, "iter", v, node, st, fr, extra=name)
    if name == "filter":
        el = H.elems(first(args, 1), node, st, fr)
        if el:
            callv(H, a0, [el], node, st, fr)
        return newc(H, "iter", el, node, st, fr, extra=name)
    if name in ("iter",):
        r = frozenset(a for a in a0 if isinstance(a, Obj) and a.kind in ("gen", "iter"))
        rest = a0 - r
        if rest:
            r |= newc(H, "iter", H.elems(rest, node, st, fr), node, st, fr, extra=name)
        return r
    if name == "next":
        r = H.elems(frozenset(a for a in a0 if not (isinstance(a, Obj) and a.kind == "inst")), node, st, fr)
        for a in a0:
            if isinstance(a, Obj) and a.kind == "inst":
                r |= H.call_method(a, "__next__", [], node, st, fr)
        return r | first(args, 1)
    if name in ("min", "max"):
        el = H.elems(a0, node, st, fr) if len(args) == 1 else frozenset().union(*(args or [EMPTY]))
        if "key" in kwargs:
            callv(H, kwargs["key"], [el], node, st, fr)
        return el | kwargs.get("default", EMPTY)
    if name == "sum":
        el = H.elems(a0, node, st, fr)
        r = EMPTY
        for a in el:
            if isinstance(a, Obj):
                r |= newc(H, a.kind, H.allvals(a), node, st, fr, extra="sum" + a.kind) if a.kind in ("list", "tuple") else VANY
            elif a == ANY:
                r |= VANY
            else:
                r |= INT if a[1] in ("int", "bool") else vtype(a[1])
        return r | INT
    if name in ("getattr",):
        r = EMPTY
        for k in first(args, 1):
            if isconst(k) and isinstance(k[2], str):
                r |= H.getattr(a0, k[2], node, st, fr)
            else:
                for o in a0:
                    if isinstance(o, Obj) and o.kind in ("inst", "class", "module"):
                        pass
                r |= VANY
        return r | first(args, 2)
    if name == "setattr":
        for k in first(args, 1):
            if isconst(k) and isinstance(k[2], str):
                saved = fr.cls
                fr.cls = None
                H.setattr(a0, k[2], first(args, 2), node, st, fr)
                fr.cls = saved
            else:
                for o in a0:
                    if isinstance(o, Obj) and o.kind in ("inst", "class", "module"):
                        H.write(o, "*", "setattr", node, st, fr)
        return NONE
    if name == "delattr":
        for o in a0:
            if isinstance(o, Obj):
                H.write(o, "*", "delattr", node, st, fr)
        return NONE
    if name == "type":
        if len(args) == 3:
            return make_type(H, args, node, st, fr)
        r = EMPTY
        for a in a0:
            if isinstance(a, Obj) and a.kind == "inst":
                r |= vobj(a.meta["cls"])
            elif isinstance(a, Obj) and a.kind in ("list", "tuple", "dict", "set", "frozenset"):
                r |= vobj(H.builtin(a.kind))
            elif isinstance(a, tuple) and a != ANY and a[1] in ("int", "str", "bool", "float"):
                r |= vobj(H.builtin(a[1]))
            else:
                r |= VANY
        return r
    if name in ("str", "repr", "print", "format", "ascii"):
        for a in allargs:
            H.tostr(a, node, st, fr)
        if name == "print":
            if H.log:
                H.extcalls.setdefault(("print", node), (H.chain(), fr))
            return NONE
        return STR
    if name == "len":
        for a in a0:
            if isinstance(a, Obj) and a.kind == "inst" and H.class_attr(a.meta["cls"], "__len__"):
                H.call_method(a, "__len__", [], node, st, fr)
            elif isinstance(a, Obj):
                H.read(a, "*", node, st)
        return INT if a0 else EMPTY
    if name == "bool":
        t, f = H.truth(a0)
        return BOOL
    if name in ("any", "all"):
        H.elems(a0, node, st, fr)
        return BOOL
    if name in ("input", "open", "exec", "eval", "compile", "__import__", "exit", "quit", "breakpoint", "globals", "locals", "vars", "raw_input"):
        if H.log:
            H.extcalls.setdefault((name, node), (H.chain(), fr))
        return STR if name in ("input", "raw_input") else VANY
    if name in ("int", "float", "isinstance", "issubclass", "callable", "hasattr", "abs", "id", "hash", "ord", "chr",
                "round", "pow", "bin", "hex", "oct", "bytes"):
        return PURE_TYPES[name] if (a0 or not args) else EMPTY
    if name == "divmod":
        t = H.alloc("tuple", node, fr, st, extra="divmod")
        H.store(t, 0, INT); H.store(t, 1, INT); t.meta["len"] = 2
        return vobj(t)
    if name == "dict.fromkeys":
        o = H.alloc("dict", node, fr, st, extra="fromkeys")
        H.store(o, "$k", H.elems(a0, node, st, fr))
        v = first(args, 1) or NONE
        if any(isinstance(x, Obj) and x.kind in MUTABLE for x in v):
            H.event("shared-elements", node, o)
        H.store(o, "*", v)
        return vobj(o)
    if name.startswith("object."):
        if name == "object.__setattr__":
            return call_builtin(H, "setattr", args, kwargs, node, st, fr, star, dstar)
        return NONE
    base, _, meth = name.partition(".")
    if meth:
        # unbound methods: set.intersection(*x), str.join(...), list.append(l, x)
        if base in ("set", "frozenset") and meth in ("intersection", "union", "difference", "symmetric_difference"):
            el = EMPTY
            for a in allargs:
                for x in a:
                    if isinstance(x, Obj):
                        el |= H.elems(vobj(x), node, st, fr)
            return newc(H, base, el, node, st, fr, extra=name)
        if args:
            r = EMPTY
            for a in args[0]:
                r |= call_bmeth(H, a, meth, list(args[1:]), kwargs, node, st, fr, star, dstar)
            return r
        return VANY
    if name == "object":
        o = H.alloc("inst", node, fr, st, extra="object")
        c = H.builtin("object")
        c.meta.setdefault("bases", [])
        o.meta["cls"] = c
        return vobj(o)
    if name == "pure":
        return VANY
    if name.endswith(("Error", "Exception", "Interrupt", "Exit", "Iteration", "Warning")):
        for a in allargs:
            H.tostr(a, node, st, fr)
        return VANY
    if name in ("classmethod", "staticmethod", "property"):
        o = H.intern("desc", node, fr.ctx, name)
        o.meta["name"] = name
        H.store(o, "f", a0)
        return vobj(o)
    H.unmodelled.setdefault("builtin " + name, node)
    return VANY


def make_type(H, args, node, st, fr):
    c = H.intern("class", node, fr.ctx)
    for a in args[0]:
        if isconst(a):
            c.meta["name"] = a[2]
    c.meta.setdefault("name", "?")
    bases = []
    for b in args[1]:
        if isinstance(b, Obj) and b.kind == "tuple":
            for v in H.allvals(b):
                if isinstance(v, Obj):
                    bases.append(v)
    c.meta["bases"] = bases
    for b in bases:
        if "ntfields" in b.meta:
            c.meta["ntfields"] = b.meta["ntfields"]
    for d in args[2]:
        if isinstance(d, Obj) and d.kind == "dict":
            for k, v in d.fields.items():
                if k not in ("$k", "factory"):
                    H.store(c, k, v)
    return vobj(c)


def call_bmeth(H, recv, name, args, kwargs, node, st, fr, star, dstar):
    a0 = first(args)
    if star is not None:
        a0 = a0 | star
    if not isinstance(recv, Obj):
        if recv == ANY:
            return VANY
        t = recv[1]
        if t == "str":
            if name == "join":
                el = H.elems(a0, node, st, fr)
                bad = [x for x in el if H.not_str(x)]
                if bad:
                    H.event("str-concat", node, tuple(sorted(set(str(atype(b)) for b in bad))))
                return STR
            if name in ("split", "rsplit", "splitlines"):
                return newc(H, "list", STR, node, st, fr, extra=name)
            if name in ("partition", "rpartition"):
                tt = H.alloc("tuple", node, fr, st, extra=name)
                for i in range(3):
                    H.store(tt, i, STR)
                tt.meta["len"] = 3
                return vobj(tt)
            if name in ("find", "rfind", "index", "rindex", "count"):
                return INT
            if name.startswith("is") or name in ("startswith", "endswith"):
                return BOOL
            if name == "encode":
                return VANY
            if name in ("format", "format_map"):
                for a in args:
                    H.tostr(a, node, st, fr)
            return STR
        if t == "float" and name == "is_integer":
            return BOOL
        return VANY
    k = recv.kind
    if k in ("gen", "iter"):
        if name in ("__next__", "next", "send"):
            return H.elems(vobj(recv), node, st, fr)
        if name == "close":
            return NONE
        return VANY
    if k == "list":
        if name in ("append", "appendleft", "add"):
            H.write(recv, "*", name, node, st, fr)
            H.store(recv, "*", a0)
            return NONE
        if name in ("extend", "extendleft"):
            H.write(recv, "*", name, node, st, fr)
            H.store(recv, "*", H.elems(a0, node, st, fr))
            return NONE
        if name == "insert":
            H.write(recv, "*", name, node, st, fr)
            H.store(recv, "*", first(args, 1))
            return NONE
        if name in ("pop", "popleft"):
            H.write(recv, "*", name, node, st, fr)
            H.read(recv, "*", node, st)
            return H.allvals(recv)
        if name in ("remove", "clear", "reverse", "sort", "rotate"):
            H.write(recv, "*", name, node, st, fr)
            if "key" in kwargs:
                callv(H, kwargs["key"], [H.allvals(recv)], node, st, fr)
            return NONE
        if name == "copy":
            return newc(H, "list", H.elems(vobj(recv), node, st, fr), node, st, fr, extra=(name, recv.uid))
        H.read(recv, "*", node, st)
        return INT if name in ("index", "count", "__len__") else (
            H.subscript(vobj(recv), a0, node, st, fr) if name == "__getitem__" else VANY)
    if k in ("set", "frozenset"):
        if k == "set":
            if name == "add":
                H.write(recv, "*", name, node, st, fr)
                H.store(recv, "*", a0)
                return NONE
            if name in ("update", "symmetric_difference_update"):
                H.write(recv, "*", name, node, st, fr)
                for a in list(args) + ([star] if star else []):
                    H.store(recv, "*", H.elems(a, node, st, fr))
                return NONE
            if name in ("discard", "remove", "clear", "difference_update", "intersection_update"):
                H.write(recv, "*", name, node, st, fr)
                for a in args:
                    if name.endswith("update"):
                        H.elems(a, node, st, fr)
                return NONE
            if name == "pop":
                H.write(recv, "*", name, node, st, fr)
                H.read(recv, "*", node, st)
                return H.allvals(recv)
        H.read(recv, "*", node, st)
        if name in ("union", "symmetric_difference", "difference", "intersection", "copy"):
            el = H.allvals(recv)
            for a in list(args) + ([star] if star else []):
                x = H.elems(a, node, st, fr)
                if name in ("union", "symmetric_difference"):
                    el |= x
            if k == "frozenset" and name == "copy":
                return vobj(recv)
            return newc(H, k, el, node, st, fr, extra=(name, k))
        return BOOL
    if k == "dict":
        if name == "get":
            r = H.subscript(vobj(recv), a0, node, st, fr) if not recv.fields.get("factory") else H.allvals(recv)
            return r | (first(args, 1) if len(args) > 1 else NONE)
        if name == "setdefault":
            H.write(recv, "*", name, node, st, fr)
            H.store(recv, "*", first(args, 1) or NONE)
            H.store(recv, "$k", a0)
            return H.subscript(vobj(recv), a0, node, st, fr)
        if name == "pop":
            H.write(recv, "*", name, node, st, fr)
            return H.subscript(vobj(recv), a0, node, st, fr) | first(args, 1)
        if name == "popitem":
            H.write(recv, "*", name, node, st, fr)
            t = H.alloc("tuple", node, fr, st, extra="item")
            H.store(t, 0, recv.fields.get("$k", EMPTY)); H.store(t, 1, H.allvals(recv)); t.meta["len"] = 2
            return vobj(t)
        if name in ("update", "clear", "move_to_end"):
            H.write(recv, "*", name, node, st, fr)
            for a in a0:
                if isinstance(a, Obj) and a.kind == "dict":
                    for kk, v in a.fields.items():
                        if kk != "factory":
                            H.store(recv, kk, v)
                elif a == ANY:
                    H.store(recv, "*", VANY)
                    H.store(recv, "$k", VANY)
            for kk, v in kwargs.items():
                H.store(recv, kk, v)
                H.store(recv, "$k", vconst(kk))
            return NONE
        H.read(recv, "*", node, st)
        if name in ("keys", "iterkeys"):
            return newc(H, "iter", recv.fields.get("$k", EMPTY), node, st, fr, extra=(name, recv.uid))
        if name in ("values", "itervalues"):
            return newc(H, "iter", H.allvals(recv), node, st, fr, extra=(name, recv.uid))
        if name in ("items", "iteritems"):
            res = EMPTY
            keyed = [(kk, v) for kk, v in recv.fields.items() if kk not in ("$k", "factory", "*")]
            if keyed and "*" not in recv.fields:
                for kk, v in keyed:
                    t = H.alloc("tuple", node, fr, st, extra=("item", recv.uid, kk))
                    H.store(t, 0, frozenset(x for x in recv.fields.get("$k", EMPTY)
                                            if x is kk or (isconst(x) and x[2] == kk)) or recv.fields.get("$k", EMPTY))
                    H.store(t, 1, v)
                    t.meta["len"] = 2
                    res |= vobj(t)
            else:
                t = H.alloc("tuple", node, fr, st, extra=("item", recv.uid))
                H.store(t, 0, recv.fields.get("$k", EMPTY))
                H.store(t, 1, H.allvals(recv))
                t.meta["len"] = 2
                res = vobj(t)
            return newc(H, "iter", res, node, st, fr, extra=(name, recv.uid))
        if name == "copy":
            o = H.alloc("dict", node, fr, st, extra=(name, recv.uid))
            for kk, v in recv.fields.items():
                H.store(o, kk, v)
            return vobj(o)
        return VANY
    if k == "tuple":
        return INT if name in ("index", "count") else VANY
    return VANY


RANDOM = ("random.",)


def call_ext(H, name, args, kwargs, node, st, fr, star, dstar):
    a0 = first(args)
    if star is not None:
        a0 = a0 | star
    allargs = list(args) + list(kwargs.values()) + ([star] if star else [])
    if H.log:
        H.extcalls.setdefault((name, node), (H.chain(), fr))
    mod, _, fn = name.rpartition(".")
    if mod == "itertools" or mod == "itertools.chain":
        if fn == "product":
            rep = kwargs.get("repeat")
            n = None
            if rep and len(rep) == 1 and isconst(next(iter(rep))):
                n = next(iter(rep))[2]
            els = [H.elems(a, node, st, fr) for a in args]
            if star is not None:
                els.append(H.elems(star, node, st, fr))
            if n and len(els) == 1:
                els = els * n
            t = H.alloc("tuple", node, fr, st, extra="prod")
            for i, e in enumerate(els):
                H.store(t, i, e)
            t.meta["len"] = len(els)
            return newc(H, "iter", vobj(t) if all(els) else EMPTY, node, st, fr, extra=fn)
        if fn in ("combinations", "permutations", "combinations_with_replacement"):
            el = H.elems(a0, node, st, fr)
            t = newc(H, "tuple", el, node, st, fr, extra="comb")
            return newc(H, "iter", t, node, st, fr, extra=fn)
        if fn == "chain":
            el = EMPTY
            for a in args:
                el |= H.elems(a, node, st, fr)
            if star is not None:
                el |= H.elems(star, node, st, fr)
            return newc(H, "iter", el, node, st, fr, extra=fn)
        if fn == "from_iterable":
            el = EMPTY
            for x in H.elems(a0, node, st, fr):
                el |= H.elems(frozenset([x]), node, st, fr)
            return newc(H, "iter", el, node, st, fr, extra=fn)
        if fn in ("islice", "cycle", "takewhile", "dropwhile", "filterfalse"):
            src = first(args, 1) if fn in ("takewhile", "dropwhile", "filterfalse") else a0
            el = H.elems(src, node, st, fr)
            if fn in ("takewhile", "dropwhile", "filterfalse") and el:
                callv(H, a0, [el], node, st, fr)
            return newc(H, "iter", el, node, st, fr, extra=fn)
        if fn == "repeat":
            return newc(H, "iter", a0, node, st, fr, extra=fn)
        if fn == "count":
            return newc(H, "iter", INT, node, st, fr, extra=fn)
        if fn in ("zip_longest",):
            return call_builtin(H, "zip", args, {}, node, st, fr, star, dstar)
        for a in allargs:
            H.elems(a, node, st, fr)
        return VANY
    if mod == "collections":
        if fn == "defaultdict":
            o = H.alloc("dict", node, fr, st, extra=fn)
            if args:
                H.store(o, "factory", a0)
            return vobj(o)
        if fn == "namedtuple":
            c = H.intern("class", node, fr.ctx)
            c.meta["bases"] = []
            for a in a0:
                if isconst(a):
                    c.meta["name"] = a[2]
            names = []
            f = first(args, 1)
            for a in f:
                if isconst(a):
                    names = a[2].replace(",", " ").split()
                elif isinstance(a, Obj):
                    # order of list literals: read from the call node
                    lit = node.args[1] if len(node.args) > 1 else None
                    if isinstance(lit, (ast.List, ast.Tuple)):
                        names = [x.value for x in lit.elts if isinstance(x, ast.Constant)]
            c.meta["ntfields"] = names
            c.meta["isnt"] = True
            return vobj(c)
        if fn == "deque":
            return newc(H, "list", H.elems(a0, node, st, fr) if args else EMPTY, node, st, fr, extra=fn)
        if fn == "OrderedDict":
            return call_builtin(H, "dict", args, kwargs, node, st, fr, star, dstar)
        if fn == "Counter":
            o = H.alloc("dict", node, fr, st, extra=fn)
            H.store(o, "*", INT)
            H.store(o, "$k", H.elems(a0, node, st, fr) if args else EMPTY)
            return vobj(o)
        return VANY
    if name in ("copy.copy", "copy.deepcopy"):
        return copy_values(H, a0, name == "copy.deepcopy", node, st, fr)
    if mod == "functools":
        if fn == "partial":
            p = H.intern("partial", node, fr.ctx, len(args))
            p.meta["n"] = len(args) - 1
            H.store(p, "func", a0)
            for i, a in enumerate(args[1:]):
                H.store(p, i, a)
            for k, v in kwargs.items():
                H.store(p, "kw:" + k, v)
            return vobj(p)
        if fn == "reduce":
            el = H.elems(first(args, 1), node, st, fr)
            acc = (first(args, 2) | el)
            for _ in range(4):
                acc |= callv(H, a0, [acc, el], node, st, fr)
            return acc
        if fn in ("lru_cache", "cache"):
            for f in a0:
                if isinstance(f, Obj) and f.kind == "func":
                    f.meta["cached"] = True
                    return a0
            o = H.intern("extres", node, fr.ctx, name)
            o.meta["name"] = "functools.lru_cache"
            return vobj(o)
        if fn == "total_ordering":
            return a0
        if fn == "wraps":
            o = H.intern("extres", node, fr.ctx, name)
            o.meta["name"] = name
            return vobj(o)
        if fn == "cmp_to_key":
            return a0
    if mod == "random" or mod.startswith("random."):
        if fn in ("choice",):
            return H.elems(a0, node, st, fr)
        if fn in ("sample", "choices"):
            return newc(H, "list", H.elems(a0, node, st, fr), node, st, fr, extra=fn)
        if fn == "shuffle":
            for a in a0:
                if isinstance(a, Obj) and a.kind in ("list", "dict"):
                    H.write(a, "*", "shuffle", node, st, fr)
                elif isinstance(a, Obj) and a.kind == "inst":
                    H.call_method(a, "__setitem__", [INT, VANY], node, st, fr)
            return NONE
        if fn == "Random":
            return vobj(H.ext("random.Random()"))
        if fn in ("seed", "setstate"):
            return NONE
        if fn in ("randint", "randrange", "getrandbits"):
            return INT
        if fn in ("random", "uniform"):
            return FLOAT
        return VANY
    if mod == "operator":
        if fn in ("itemgetter", "attrgetter", "methodcaller"):
            o = H.intern("extres", node, fr.ctx, name)
            o.meta["name"] = name
            return vobj(o)
        return VANY
    if name in ("math.sqrt",):
        return FLOAT
    if mod == "math":
        return INT
    if name == "ast.literal_eval":
        return VANY
    if name in ("sys.stdout.write", "sys.stderr.write"):
        bad = [x for x in a0 if H.not_str(x)]
        if bad:
            H.event("str-concat", node, tuple(sorted(set(str(atype(b)) for b in bad))))
        return NONE
    if name in ("sys.exit", "os._exit"):
        return EMPTY
    if name == "heapq.heappush":
        for a in a0:
            if isinstance(a, Obj):
                H.write(a, "*", "heappush", node, st, fr)
                H.store(a, "*", first(args, 1))
        return NONE
    # argparse, inspect, platform, os ...: results are unknown; arguments that reach
    # package objects are recorded as escaping
    for a in allargs:
        for x in a:
            if isinstance(x, Obj) and x.kind == "inst":
                H.unmodelled.setdefault("escape to " + name, node)
    return VANY


def copy_values(H, v, deep, node, st, fr):
    """Objects made by copy.copy / copy.deepcopy."""
    res = EMPTY
    mapping = {}

    def clone(o, top):
        if o in mapping:
            return mapping[o]
        if o.kind not in ("list", "set", "dict", "inst", "tuple", "frozenset") or (not deep and not top):
            return o
        if o.kind == "inst":
            hook = H.class_attr(o.meta["cls"], "__deepcopy__" if deep else "__copy__")
            if hook:
                r = H.call(H.bind(hook, o, o.meta["cls"]), [VANY] if deep else [], {}, node, st, fr)
                mapping[o] = r
                return r
        n = H.alloc(o.kind, node, fr, st, extra=("copy", deep, o.site if not isinstance(o.site, ast.AST) else id(o.site), o.ctx, o.kind))
        n.meta.update(o.meta)
        mapping[o] = n
        H.read(o, "*", node, st)
        for k, val in list(o.fields.items()):
            H.read(o, k, node, st)
            nv = EMPTY
            for a in val:
                if isinstance(a, Obj):
                    c = clone(a, False)
                    nv |= c if isinstance(c, frozenset) else vobj(c)
                else:
                    nv |= frozenset([a])
            H.store(n, k, nv)
        return n
    for a in v:
        if isinstance(a, Obj):
            c = clone(a, True)
            res |= c if isinstance(c, frozenset) else vobj(c)
        else:
            res |= frozenset([a])
    return res
