"""C01, C02, C03, C23: decided by the points-to / effect analysis (sa/heap.py)."""
from sa.entries import Entries
from sa.heap import ANY, BOOL, EMPTY, INT, NONE, Obj, STR, VANY, atype, vobj, vconst
from sa.program import AnalysisBroken, enclosing, snippet
from sa.report import Report

SUDOKU_QUERIES = ["__iter__", "empty", "filled", "count", "diff", "copy", "__eq__", "__str__", "__getitem__", "__len__",
                  "get_number", "get_candidates", "encode", "box_at", "column_of", "row_of", "box_of", "surrounding_of",
                  "equals"]
LIB = ("sudoku", "coordinates", "solve", "analyze", "solvers", "generate", "actions", "notation")
QUERIES = [("solve", "calc_candidates"), ("solve", "dlx"), ("solve", "bruteforce"),
           ("analyze", "rate"), ("analyze", "score"), ("analyze", "is_solved"), ("analyze", "is_unique"),
           ("analyze", "find_conflicts"), ("solvers", "solve"), ("solvers", "hints"),
           ("generate", "generate_from_template"), ("sudoku", "view"), ("shell", "Shell.solve_command")]


def coords_star(E):
    t = E.H.intern("tuple", "coordarg", ("P:coords",))
    t.meta["len"] = 2
    E.H.store(t, 0, INT)
    E.H.store(t, 1, INT)
    return vobj(t)


def shell_self(E):
    c = E.H.lookup("sudokutools.shell", "Shell")
    o = E.H.intern("inst", "shell", ("P:shell",))
    o.meta["cls"] = c
    return vobj(o)


def esc(H):
    return [k for k in H.unmodelled]


def write_text(prog, H, o, f, op, node, chain):
    return "%s writes %s (call path: %s)" % (snippet(node), o, H.describe_chain(chain) or "-")


def c01(prog):
    R = Report("C01", prog, "Effect analysis: no write performed by a query, search or step finder may reach a location "
               "that reading a number or the candidates of its argument looks at; setters may only write locations of "
               "what they name. One obligation per entry point and per setter.",
               ["a caller-supplied report() callback does not write the sudoku",
                "library functions outside the package behave as modelled in sa/models.py"])
    E = Entries(prog)
    H = E.H
    todo = [("Sudoku." + m, E.method(m), "self") for m in SUDOKU_QUERIES]
    for mod, fn in QUERIES:
        todo.append((mod + "." + fn, E.func(mod, fn), "shell" if fn.startswith("Shell.") else None))
    for c in E.solver_classes():
        todo.append(("%s.find" % c.meta["name"], E.method("find", c), c))
        todo.append(("%s.build_actions" % c.meta["name"], E.method("build_actions", c), ("step", c)))

    def one(name, f, how):
        E.reset()
        num, cand = E.read_locations(("sudoku", "other", "template"))
        H.writes.clear(); H.unmodelled.clear()
        over = {"*": lambda: coords_star(E), "report": VANY}
        if how == "self":
            E.run(f, selfv=lambda: E.board("sudoku"), over=over)
        elif how == "shell":
            E.run(f, selfv=lambda: shell_self(E), over=over)
        elif isinstance(how, tuple):
            find = E.method("find", how[1])

            def then(r, ys, fr, st):
                for s in ys:
                    if isinstance(s, Obj) and s.kind == "inst":
                        H.call_method(s, "build_actions", [E.board("sudoku")], f.meta["node"], st, fr)
            E.run(find, selfv=vobj(how[1]), over=over, then=then)
        elif how is not None:
            E.run(f, selfv=vobj(how), over=over)
        else:
            E.run(f, over=over)
        R.count("call sites", len(H.visited_calls)); H.visited_calls.clear()
        R.count("write sites", len(H.writes))
        bad = [(k, v) for k, v in H.writes.items() if (k[0], k[1]) in num or (k[0], k[1]) in cand]
        for (o, fld, op, node), (chain, _) in bad:
            R.violate("query-writes-nothing", "%s <- %s in %s" % (name, op, enclosing(node)),
                      write_text(prog, H, o, fld, op, node, chain), prog.loc(node))
        if not bad:
            e = [k for k in esc(H) if k.startswith("escape")]
            if e:
                R.undecided("query-writes-nothing", name, "argument handed to unmodelled " + ", ".join(e))
            else:
                R.holds("query-writes-nothing", name)
    for t in todo:
        one(*t)
    # frame conditions of the setters
    for name, f, selfm, forbid in [
            ("Sudoku.__setitem__", E.method("__setitem__"), True, 1),
            ("Sudoku.set_number", E.method("set_number"), True, 1),
            ("Sudoku.set_candidates", E.method("set_candidates"), True, 0),
            ("Sudoku.remove_candidates", E.method("remove_candidates"), True, 0),
            ("solve.init_candidates", E.func("solve", "init_candidates"), False, 0)]:
        E.reset()
        locs = E.read_locations(("sudoku",))
        both = {l for l in locs[0] & locs[1] if l[0].kind in ("list", "dict", "set")}
        H.writes.clear()
        over = {"value": (lambda: E.int_list("value", "list")) if forbid == 0 else INT}
        if selfm:
            E.run(f, selfv=lambda: E.board("sudoku"), over=over)
        else:
            E.run(f, over=over)
        bad = [(k, v) for k, v in H.writes.items() if (k[0], k[1]) in locs[forbid]]
        what = ("numbers", "candidates")[forbid]
        if both:
            R.undecided("setter-frame", name, "numbers and candidates share one container")
        elif bad:
            for (o, fld, op, node), (chain, _) in bad:
                R.violate("setter-frame", "%s writes %s in %s" % (name, what, enclosing(node)),
                          write_text(prog, H, o, fld, op, node, chain), prog.loc(node))
        else:
            R.holds("setter-frame", name, "writes no location of the " + what)
    return R


def global_roots(H):
    """Everything that outlives a call: objects of the module level (modules, classes, defaults, tables)."""
    v = set()
    for o in list(H.interned.values()) + list(H.modules.values()):
        if isinstance(o, Obj) and o.region == "G" and o.kind not in ("bound", "gen", "iter", "cell"):
            v.add(o)
            for vals in o.fields.values():
                v.update(a for a in vals if isinstance(a, Obj))
    return frozenset(a for a in v if a.kind not in ("class", "module", "func", "ext", "builtin"))


def sudokus(H, v, E):
    return [a for a in v if isinstance(a, Obj) and a.kind == "inst" and E.Sudoku in H.mro(a.meta["cls"])]


def c02(prog):
    R = Report("C02", prog, "Points-to analysis: every mutable object reachable from a returned or yielded sudoku was "
               "created by the call itself (not reachable from an argument, a module, a class or a cache); typestate of "
               "generators: an object once yielded is neither yielded again, written nor read by the generator.",
               ["library functions outside the package behave as modelled in sa/models.py"])
    E = Entries(prog)
    H = E.H
    cls = vobj(E.Sudoku)
    todo = [("Sudoku.copy", E.method("copy"), lambda: E.board("sudoku"), {}),
            ("Sudoku.decode", E.method("decode"), cls, {}),
            ("solve.dlx", E.func("solve", "dlx"), None, {}),
            ("solve.bruteforce", E.func("solve", "bruteforce"), None, {}),
            ("solvers.solve", E.func("solvers", "solve"), None, {}),
            ("generate.create_solution", E.func("generate", "create_solution"), None, {}),
            ("generate.generate", E.func("generate", "generate"), None, {}),
            ("generate.generate_from_template", E.func("generate", "generate_from_template"), None, {}),
            ("shell.Shell.solve_command", E.func("shell", "Shell.solve_command"), lambda: shell_self(E), {})]
    for name, f, selfv, over in todo:
        E.reset()
        H.unmodelled.clear()
        r, y = E.run(f, selfv=selfv, over=over, handout=f.meta["isgen"] or name.startswith("solve."))
        out = y if (f.meta["isgen"] or y) else r
        R.count("call sites", len(H.visited_calls)); H.visited_calls.clear()
        outs = sudokus(H, out, E)
        rest = [a for a in out if a not in outs]
        if not outs:
            R.undecided("fresh-result", name, "no sudoku result found (%s)" % sorted(map(str, rest)))
            continue
        ok = True
        for o in outs:
            for x in H.reach(vobj(o)):
                if x.region != "E":
                    ok = False
                    what = {"G": "module level / a cache"}.get(x.region, "the argument " + x.region[2:])
                    R.violate("fresh-result", "%s: %s %s" % (name, x.kind, enclosing(x.site) if hasattr(x.site, "lineno") else x.site),
                              "result %s shares %s with %s" % (o, x, what), prog.loc(o.site) if hasattr(o.site, "lineno") else "")
        kept = H.reach(global_roots(H))
        for o in outs:
            if o in kept:
                ok = False
                R.violate("fresh-result", "%s: result kept in module or class data" % name,
                          "result %s stays reachable from module, class or default-argument data" % o,
                          prog.loc(o.site) if hasattr(o.site, "lineno") else "")
        for (kind, node, *data), chain in H.events.items():
            if kind in ("handed-twice", "handed-write", "handed-read"):
                ok = False
                R.violate("yielded-object-untouched", "%s: %s in %s" % (name, kind, enclosing(node)),
                          "%s: %s touches a sudoku already handed out (%s)" % (kind, snippet(node), data[0]), prog.loc(node))
            if kind == "cached-call":
                ok = False
                R.violate("fresh-result", "%s: cached %s" % (name, data[0].meta["name"]),
                          "%s is memoised, so calls share their result" % data[0].meta["name"], prog.loc(node))
        if ok:
            if ANY in rest:
                R.undecided("fresh-result", name, "may also return an unmodelled value")
            else:
                R.holds("fresh-result", name, "%d result objects, all fresh" % len(outs))
                if y:
                    R.holds("yielded-object-untouched", name)
    return R


def c03(prog):
    R = Report("C03", prog, "Type and alias analysis of the candidate storage: every value stored in or read from it is a "
               "frozenset made by the class itself, setters neither keep nor write the collection passed in, and no two "
               "fields share a mutable container.", ["callers pass collections of ints"])
    E = Entries(prog)
    H = E.H

    def leaves(fr, st, region=None):
        """Values get_candidates can return for every sudoku object of the heap."""
        out = []
        for o in list(H.interned.values()):
            if isinstance(o, Obj) and o.kind == "inst" and o.meta.get("cls") is not None and \
                    E.Sudoku in H.mro(o.meta["cls"]) and o.fields:
                out.append((o, H.call_method(o, "get_candidates", [INT, INT], "leaf", st, fr)))
        return out

    def judge(name, vals, rule):
        bad, unk = [], []
        for o, v in vals:
            for a in v:
                if isinstance(a, Obj):
                    if a.kind == "frozenset":
                        continue
                    bad.append((o, a))
                elif a == ANY:
                    unk.append((o, a))
                else:
                    bad.append((o, a))
        if bad:
            for o, a in bad:
                site = getattr(a, "site", None)
                R.violate(rule, "%s: %s from %s" % (name, atype(a), enclosing(site) if hasattr(site, "lineno") else site),
                          "candidates of a field may be a %s (%s), not a frozenset" % (atype(a), a),
                          prog.loc(site) if hasattr(site, "lineno") else "")
        elif unk:
            R.undecided(rule, name, "a value of unknown type may be stored as candidates")
        elif not any(v for _, v in vals):
            R.undecided(rule, name, "no stored candidates found")
        else:
            R.holds(rule, name, "%d sudoku objects, only frozensets" % len(vals))

    kinds = ("list", "set", "frozenset", "dict", "tuple", "iter")
    for meth in ("set_candidates", "remove_candidates"):
        for kind in kinds:
            E.reset()
            f = E.method(meth)
            H.unmodelled.clear()
            res = {}

            def value(kind=kind):
                if kind == "dict":
                    o = H.intern("dict", "arg:value", ("P:value",))
                    H.store(o, "$k", INT); H.store(o, "*", INT)
                    return vobj(o)
                return E.int_list("value", kind)

            def then(r, ys, fr, st):
                res["l"] = leaves(fr, st)
            E.run(f, selfv=lambda: E.board("sudoku"), over={"value": value}, then=then)
            name = "Sudoku.%s(%s)" % (meth, kind)
            judge(name, res["l"], "stored-is-frozenset")
            wr = [(k, v) for k, v in H.writes.items() if k[0].region == "P:value"]
            for (o, fld, op, node), (chain, _) in wr:
                R.violate("argument-not-written", name + " in " + enclosing(node), "%s changes the collection passed in" % snippet(node), prog.loc(node))
            keep = [o for o, _ in res["l"] for x in H.reach(vobj(o)) if x.region == "P:value"]
            if keep:
                R.violate("argument-not-kept", name, "the sudoku keeps the collection passed in")
            if not wr and not keep:
                R.holds("argument-isolated", name)
    # other operations that store candidates
    more = [("Sudoku.copy", E.method("copy"), lambda: E.board("sudoku"), {}),
            ("Sudoku.decode", E.method("decode"), vobj(E.Sudoku), {}),
            ("solve.init_candidates", E.func("solve", "init_candidates"), None, {}),
            ("solve.bruteforce", E.func("solve", "bruteforce"), None, {}),
            ("solvers.solve", E.func("solvers", "solve"), None, {"report": VANY})]
    for name, f, selfv, over in more:
        E.reset()
        res = {}

        def then(r, ys, fr, st):
            res["l"] = leaves(fr, st)
        E.run(f, selfv=selfv, over=over, then=then)
        judge(name, res["l"], "stored-is-frozenset")
    for cname in ("SetNumber", "RemoveCandidates"):
        E.reset()
        c = H.lookup("sudokutools.actions", cname)
        f = E.method("__call__", c)
        res = {}

        def selfv():
            o = H.intern("inst", "action", ("P:action",))
            o.meta["cls"] = c
            cl = H.intern("list", "action-coords", ("P:action",))
            t = H.intern("tuple", "action-coord", ("P:action",))
            t.meta["len"] = 2
            H.store(t, 0, INT); H.store(t, 1, INT)
            H.store(cl, "*", vobj(t))
            H.store(o, "coordinates", vobj(cl))
            H.store(o, "number", INT)
            H.store(o, "candidates", E.int_list("value", "list"))
            return vobj(o)

        def then(r, ys, fr, st):
            res["l"] = leaves(fr, st)
        E.run(f, selfv=selfv, then=then)
        judge("actions." + cname, res["l"], "stored-is-frozenset")
    # get_candidates
    E.reset()
    r, _ = E.run(E.method("get_candidates"), selfv=lambda: E.board("sudoku"))
    judge("Sudoku.get_candidates", [(None, r)], "read-is-frozenset")
    # field isolation: no shared mutable containers inside a sudoku
    for name, f, selfv in [("Sudoku()", None, None), ("Sudoku.copy", E.method("copy"), lambda: E.board("sudoku")),
                           ("Sudoku.decode", E.method("decode"), vobj(E.Sudoku))]:
        E.reset()
        ini = E.method("__init__")
        if f is None:
            def selfv():
                o = H.intern("inst", "new", ("E",))
                o.meta["cls"] = E.Sudoku
                return vobj(o)
            E.run(ini, selfv=selfv)
        else:
            E.run(f, selfv=selfv)
        num, cand = None, None
        shared = [(node, data[0]) for (kind, node, *data) in H.events if kind == "shared-elements"]
        ok = True
        for node, o in shared:
            # does the shared container belong to a sudoku?
            for s in H.interned.values():
                if isinstance(s, Obj) and s.kind == "inst" and s.meta.get("cls") is not None and \
                        E.Sudoku in H.mro(s.meta["cls"]) and o in H.reach(vobj(s)):
                    ok = False
                    R.violate("fields-isolated", "%s: %s" % (name, enclosing(node)),
                              "%s puts one mutable container into several places of the grid" % snippet(node), prog.loc(node))
                    break
        if ok:
            R.holds("fields-isolated", name)
    return R


def public_entries(E):
    """Every public function and method of the library (not the shells)."""
    H = E.H
    out = []
    for mod in LIB:
        m = H.modules.get("sudokutools." + mod)
        if m is None:
            raise AnalysisBroken("module sudokutools.%s not found" % mod)
        for k, v in sorted(m.fields.items(), key=lambda x: str(x[0])):
            if not isinstance(k, str) or k.startswith("_"):
                continue
            for o in v:
                if not isinstance(o, Obj):
                    continue
                if o.kind == "func" and o.meta["mod"] is m and o.meta["name"] != "<lambda>":
                    out.append(("%s.%s" % (mod, k), o, None))
                elif o.kind == "class" and getattr(o.site, "_mod", None) == "sudokutools." + mod:
                    for mk, mv in sorted(o.fields.items(), key=lambda x: str(x[0])):
                        for f in mv:
                            if isinstance(f, Obj) and f.kind == "desc":
                                g = [x for x in f.fields.get("f", ()) if isinstance(x, Obj) and x.kind == "func"]
                                if g and not mk.startswith("_"):
                                    out.append(("%s.%s.%s" % (mod, k, mk), g[0], ("class", o)))
                            elif isinstance(f, Obj) and f.kind == "func" and (
                                    not mk.startswith("_") or (mk.startswith("__") and mk.endswith("__"))):
                                out.append(("%s.%s.%s" % (mod, k, mk), f, ("self", o)))
    return out


def instance_for(E, c):
    H = E.H
    if E.Sudoku in H.mro(c):
        return E.board("sudoku")
    o = H.intern("inst", "self:" + c.meta["name"], ("P:self",))
    o.meta["cls"] = c
    if c.meta.get("ntfields"):
        o.meta["nt"] = c.meta["ntfields"]
    def coords(n):
        t = H.intern("tuple", "coord" + n, ("P:self",)); t.meta["len"] = 2
        H.store(t, 0, INT); H.store(t, 1, INT)
        l = H.intern("tuple", "coords" + n, ("P:self",))
        H.store(l, "*", vobj(t))
        return vobj(l)
    for f in ("clues", "affected", "coordinates"):
        H.store(o, f, coords(f))
    v = H.intern("tuple", "vals", ("P:self",))
    H.store(v, "*", INT)
    H.store(o, "values", vobj(v)); H.store(o, "candidates", vobj(v)); H.store(o, "number", INT)
    if c.meta["name"] not in ("SetNumber", "RemoveCandidates"):
        a = H.intern("list", "actions", ("P:self",))
        a.fields.setdefault("*", EMPTY)
        H.store(o, "actions", vobj(a))
    return vobj(o)


NONDET = ("time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.environ", "os.getenv", "os.getpid")


def c23(prog):
    R = Report("C23", prog, "Effect analysis of every public function and method: no write to objects created at module "
               "level (module globals, class attributes, default arguments, caches), no reseeding of random, no random or "
               "clock use outside the generator, and no cache of field contents kept on the sudoku by a query.",
               ["library functions outside the package behave as modelled in sa/models.py"])
    E = Entries(prog)
    H = E.H
    entries = public_entries(E)
    R.count("public entry points", len(entries))
    queries = set("sudoku.Sudoku." + m for m in SUDOKU_QUERIES) | set("%s.%s" % q for q in QUERIES)
    for name, f, how in entries:
        E.reset()
        num, cand = E.read_locations(("sudoku",))
        H.writes.clear(); H.extcalls.clear(); H.events.clear(); H.globwrites.clear()
        try:
            if how is None:
                E.run(f, over={"*": lambda: coords_star(E)})
            elif how[0] == "class":
                E.run(f, selfv=vobj(how[1]))
            else:
                E.run(f, selfv=lambda: instance_for(E, how[1]))
        except (RecursionError, AnalysisBroken) as e:
            R.undecided("no-hidden-state", name, "analysis failed: %s" % e)
            continue
        ok = True
        for (o, fld, op, node), (chain, fn) in H.writes.items():
            if o.region == "G" and o.kind not in ("ext", "builtin"):
                ok = False
                R.violate("no-shared-write", "%s: %s of %s in %s" % (name, op, o.meta.get("name", o.kind), enclosing(node) if hasattr(node, "lineno") else node),
                          "%s changes module-level data %s" % (snippet(node), o), prog.loc(node))
        for (kind, node, *data) in H.events:
            if kind == "cached-call":
                ok = False
                R.violate("no-shared-write", "%s: cached %s" % (name, data[0].meta["name"]),
                          "%s is memoised across calls" % data[0].meta["name"], prog.loc(node))
            if kind == "ext-setattr":
                ok = False
                R.violate("no-shared-write", "%s: sets %s" % (name, data[0]), "%s changes another module" % snippet(node), prog.loc(node))
        for (en, node), (chain, fr) in H.extcalls.items():
            if en in ("random.seed", "random.setstate"):
                ok = False
                R.violate("no-reseed", "%s: %s" % (name, en), "%s changes the shared random generator" % snippet(node), prog.loc(node))
            elif en.startswith("random.") and not name.startswith("generate."):
                ok = False
                R.violate("random-only-in-generator", "%s: %s in %s" % (name, en, enclosing(node)),
                          "the result of %s depends on random numbers" % name, prog.loc(node))
            elif en.startswith(NONDET):
                ok = False
                R.violate("random-only-in-generator", "%s: %s" % (name, en), "%s depends on %s" % (name, en), prog.loc(node))
        # caches of contents on the sudoku itself
        if name in queries or name in ("sudoku.Sudoku.copy",):
            leaf = num | cand
            for (o, fld, op, node), (chain, fn) in H.writes.items():
                if o.region == "P:sudoku" and (o, fld) not in leaf and fn is not None:
                    if reads_content(E, prog, node, fn, leaf):
                        inval = invalidated(E, o, fld)
                        if inval:
                            R.undecided("no-content-cache", name, "cache %s is also written by the setters" % fld)
                        else:
                            ok = False
                            R.violate("no-content-cache", "%s: %s in %s" % (name, fld, enclosing(node)),
                                      "%s stores a result computed from the fields on the sudoku; later writes do not update it" % snippet(node),
                                      prog.loc(node))
        if ok:
            R.holds("no-hidden-state", name)
    R.count("functions interpreted", len(H.visited_funcs))
    return R


def reads_content(E, prog, node, fn, leaf):
    """Does the function holding this write read numbers or candidates?"""
    H = E.H
    H.memo.clear()
    H.reads.clear()
    try:
        E.run(fn, selfv=lambda: E.board("sudoku"))
    except AnalysisBroken:
        return False
    return any((o, f) in leaf and o.kind in ("list", "dict") for (o, f) in H.reads)


def invalidated(E, o, fld):
    H = E.H
    keep = dict(H.writes)
    H.writes.clear(); H.memo.clear()
    for m in ("__setitem__", "set_candidates"):
        E.run(E.method(m), selfv=lambda: E.board("sudoku"), over={"value": INT if m == "__setitem__" else E.int_list("value")})
    r = any(k[0] is o and k[1] == fld for k in H.writes)
    H.writes.clear()
    H.writes.update(keep)
    return r
