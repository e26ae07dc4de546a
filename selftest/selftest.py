"""Checks the analysers on broken variants (must alarm) and on rewritten but equal variants (must stay quiet).
The variants are text edits of the snapshot in selftest/base, so the outcome does not depend on /repo."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


# files that the slow checks look at: rewritten variants of other files are not run on them
LOOKS_AT = {"C06": ("notation.py", "coordinates.py"), "C07": ("notation.py", "coordinates.py"), "C10": ("solve.py", "sudoku.py"), "C11": ("solve.py", "sudoku.py"), "C16": ("generate.py", "sudoku.py"), "C12": ("solvers.py",), "C30": ("sudoku.py",), "C14": ("solvers.py",), "C17": ("generate.py", "sudoku.py"), "C19": ("shell.py", "__main__.py")}


def variant(base, file, old, new, tmp):
    dst = os.path.join(tmp, "sudokutools")
    shutil.copytree(os.path.join(base, "sudokutools"), dst, ignore=shutil.ignore_patterns("tests", "__pycache__"))
    p = os.path.join(dst, file)
    s = open(p, encoding="utf-8").read()
    if s.count(old) < 1:
        raise SystemExit("selftest: text not found in %s: %r" % (file, old))
    s = s.replace(old, new, 1)
    compile(s, file, "exec")
    open(p, "w", encoding="utf-8").write(s)


def one(job):
    sys.path.insert(0, os.path.dirname(HERE))
    import run_check
    kind, base, item = job
    tmp = tempfile.mkdtemp(prefix="selftest")
    try:
        prop, name, edits = item
        root = base
        cur = base
        for i, (f, o, n) in enumerate(edits):
            t = os.path.join(tmp, str(i))
            os.makedirs(t)
            variant(cur, f, o, n, t)
            cur = t
        res = []
        for p in ([prop] if isinstance(prop, str) else prop):
            try:
                rc, rep = run_check.run(p, repo=cur, quiet=True, write=False)
                res.append((p, rc, rep.viol[:2], rep.undec[:2]))
            except Exception as e:
                import traceback
                res.append((p, 2, "%s: %s" % (type(e).__name__, e), traceback.format_exc()))
        return kind, name, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def jobs(base, props=None, only=None):
    from checks import CHECKS
    from . import mutants
    try:
        from . import refactors
        RF = refactors.R
    except ImportError:
        RF = []
    out = []
    for prop, name, f, o, n in mutants.M:
        if prop in CHECKS and (not props or prop in props) and (only is None or only in name):
            out.append(("mutant", base, (prop, name, [(f, o, n)])))
    if props != ["none"]:
        for name, edits in RF:
            ps = [p for p in (sorted(CHECKS) if not props else props) if p not in LOOKS_AT or any(f in LOOKS_AT[p] for f, _o, _n in edits)]
            if only is None or only in name:
                out.append(("refactor", base, (ps, name, edits)))
    return out


def main(base=None, props=None, verbose=False, only=None, budget=None):
    sys.path.insert(0, os.path.dirname(HERE))
    from multiprocessing import Pool
    base = base or os.path.join(HERE, "base")
    bad = 0
    tot = {"mutant": 0, "refactor": 0}
    missed = []
    import time
    end = time.time() + budget if budget else None
    with Pool(8) as pool:
        for kind, name, res in pool.imap_unordered(one, jobs(base, props, only)):
            tot[kind] += 1
            if end and time.time() > end:
                print("selftest: time budget used up, the remaining variants are skipped")
                pool.terminate()
                break
            for p, rc, v, u in res:
                want = 1 if kind == "mutant" else 0
                if rc != want:
                    bad += 1
                    missed.append((kind, p, name, rc))
                    print("%s %s %r: exit %s %s %s" % (kind, p, name, rc, v if rc else "", u))
                elif verbose:
                    print("ok %s %s %r %s" % (kind, p, name, [x["message"] for x in v][:1] if kind == "mutant" else [x["why"] for x in u]))
    print("selftest: %(mutant)d broken variants, %(refactor)d rewritten variants" % tot, "- %d unexpected" % bad)
    return 1 if bad else 0


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--base")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-k")
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    sys.exit(main(a.base, a.props or None, a.v, a.k))
