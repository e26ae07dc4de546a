"""Entry points of the library for the heap analysis: which functions, with which abstract arguments."""
from .heap import (ANY, BOOL, EMPTY, Frame, Heap, INT, NONE, Obj, STR, VANY, vconst, vobj)
from .program import AnalysisBroken

BOARD = "sudokutools.sudoku"


class Entries(object):
    def __init__(self, prog):
        self.prog = prog
        self.H = Heap(prog)
        self.Sudoku = self.H.lookup(BOARD, "Sudoku")
        self.base = self.H.snapshot()

    def reset(self):
        self.H.restore(self.base)
        self.H.stub = {}

    # ---- argument objects
    def board(self, name, region="P"):
        """An arbitrary sudoku, built through its own constructor and setters."""
        H = self.H
        fr = Frame(None, H.modules[BOARD], ("%s:%s" % (region, name),))
        st = {"$H": EMPTY}
        log, H.log = H.log, False
        v = H.call(vobj(self.Sudoku), [], {}, "board:" + name, st, fr)
        for o in v:
            H.call_method(o, "__setitem__", [self.coord(fr, st), INT], "fill:" + name, st, fr)
            el = H.intern("list", "cands:" + name, fr.ctx)
            H.store(el, "*", INT)
            H.call_method(o, "set_candidates", [INT, INT, vobj(el)], "fillc:" + name, st, fr)
        H.log = log
        return v

    def coord(self, fr, st):
        t = self.H.intern("tuple", "coord", fr.ctx)
        t.meta["len"] = 2
        self.H.store(t, 0, INT)
        self.H.store(t, 1, INT)
        return vobj(t)

    def int_list(self, name, kind="list", region="P"):
        o = self.H.intern(kind, "arg:" + name, ("%s:%s" % (region, name),))
        self.H.store(o, "*", INT)
        return vobj(o)

    def arg(self, name, fr, st, over=None):
        if over and name in over:
            v = over[name]
            return v() if callable(v) else v
        if name in ("sudoku", "template", "other"):
            return self.board(name)
        if name in ("row", "col", "box", "part", "width", "height", "tries", "min_count"):
            return INT
        if name in ("include", "include_candidates", "filled_only", "align_right", "candidates"):
            return BOOL
        if name == "key":
            return self.coord(fr, st)
        if name in ("row_sep", "col_sep", "s", "empty", "sudoku_sep", "candidate_sep", "candidate_prefix", "sep", "nsep"):
            return STR
        if name == "number_sep":
            return STR | NONE
        if name in ("box_size",):
            return self.coord(fr, st)
        return VANY

    def run(self, fobj, over=None, selfv=None, iterate=True, handout=False, then=None):
        """Fixpoint analysis of one call with arbitrary arguments; returns (return value, yields)."""
        H = self.H
        res = {}

        def thunk(fr, st):
            a = fobj.meta["node"].args
            args = []
            params = a.posonlyargs + a.args
            start = 0
            if selfv is not None:
                args.append(selfv() if callable(selfv) else selfv)
                start = 1
            for p in params[start:]:
                args.append(self.arg(p.arg, fr, st, over))
            kwargs = {p.arg: self.arg(p.arg, fr, st, over) for p in a.kwonlyargs}
            star = None
            if a.vararg:
                star = over.get("*", VANY) if over else VANY
                if callable(star):
                    star = star()
            r = H.call_func(fobj, args, kwargs, fobj.meta["node"], st, fr, star,
                            handout=handout and not fobj.meta["isgen"])
            ys = EMPTY
            if iterate:
                for g in r:
                    if isinstance(g, Obj) and g.kind == "gen":
                        for _ in range(6):
                            h = st["$H"]
                            ys |= H.run_gen(g, fobj.meta["node"], st, fr, handout=handout)
                            st["$H"] = st["$H"] | h
                            if st["$H"] == h:
                                break
            if then:
                then(r, ys, fr, st)
            res["r"], res["y"] = r, ys
            return r
        H.fixpoint(thunk)
        return res["r"], res["y"]

    # ---- what reading a number / candidates of an argument looks at
    def read_locations(self, names=("sudoku",)):
        """({(obj, field)} read by __getitem__, ... by get_candidates) for argument boards."""
        H = self.H
        out = []
        for meth in ("__getitem__", "get_candidates"):
            keep = dict(H.reads)
            H.reads.clear()
            H.memo.clear()
            for nme in names:
                f = self.method(meth)
                self.run(f, selfv=lambda nme=nme: self.board(nme))
            locs = frozenset((o, "*" if not isinstance(fld, str) else fld) for (o, fld) in H.reads
                             if o.region.startswith("P:"))
            H.reads.update(keep)
            out.append(locs)
        return out

    def method(self, name, cls=None):
        v = self.H.class_attr(cls or self.Sudoku, name)
        if not v:
            raise AnalysisBroken("anchor Sudoku.%s not found" % name)
        for o in v:
            if isinstance(o, Obj) and o.kind == "func":
                return o
            if isinstance(o, Obj) and o.kind == "desc":
                for x in o.fields.get("f", ()):
                    if isinstance(x, Obj) and x.kind == "func":
                        return x
        raise AnalysisBroken("anchor Sudoku.%s is not a method" % name)

    def func(self, mod, qual):
        o = self.H.lookup("sudokutools." + mod, qual)
        if o.kind == "desc":
            for x in o.fields.get("f", ()):
                return x
        return o

    def solver_classes(self):
        v = self.H.modules["sudokutools.solvers"].fields.get("SOLVERS")
        out = []
        for l in v or ():
            if isinstance(l, Obj):
                for c in self.H.allvals(l):
                    if isinstance(c, Obj) and c.kind == "class":
                        out.append(c)
        if not out:
            raise AnalysisBroken("anchor solvers.SOLVERS not found")
        return sorted(out, key=lambda c: c.meta["name"])
