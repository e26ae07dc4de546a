#!/usr/bin/env python3
"""run_check.py <property id>: decide one property from /repo's current source.  --selftest: check the analysers."""
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from sa.report import Report  # noqa: E402
from sa.program import AnalysisBroken, Program  # noqa: E402
from checks import CHECKS  # noqa: E402


def run(pid, repo=None, quiet=False, write=True):
    prog = Program(repo) if repo else Program()
    try:
        rep = CHECKS[pid]()(prog)
    except AnalysisBroken:
        raise
    except Exception as e:                # a construct the analysis was not written for: no verdict, not an alarm
        if os.environ.get("VERIF_DEBUG"):
            raise
        rep = Report(pid, prog, "", ())
        rep.undecided("analysis", "the whole property", "%s in the analysis: %s" % (type(e).__name__, e))
    return rep.finish(quiet=quiet, write=write), rep


def main(argv):
    if argv and argv[0] == "--selftest":
        from selftest import selftest
        return selftest.main(budget=240)
    pids = sorted(CHECKS) if argv == ["all"] else argv
    rc = 0
    for pid in pids:
        if pid not in CHECKS:
            print("no check for", pid)
            return 2
        try:
            rc = max(rc, run(pid)[0])
        except AnalysisBroken as e:
            print("%s: analysis broken: %s" % (pid, e))
            return 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
