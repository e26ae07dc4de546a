"""undecided.py PROP...: obligations a check leaves open on the rewritten variants (a measure of how form-dependent it is)."""
import os
import sys
import tempfile
import shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from checks import CHECKS
from sa.program import Program
from selftest.refactors import R
from selftest.selftest import HERE, variant

BASE = os.path.join(HERE, "base")


def main():
    for pid in sys.argv[1:]:
        for name, edits in R:
            tmp = []
            cur = BASE
            for f, o, w in edits:
                t = tempfile.mkdtemp(prefix="und")
                tmp.append(t)
                variant(cur, f, o, w, t)
                cur = t
            try:
                rep = CHECKS[pid]()(Program(cur))
                if rep.undec or rep.viol:
                    print(pid, name, "undecided", len(rep.undec), "violated", len(rep.viol), str((rep.undec + rep.viol)[0])[:230])
            finally:
                for t in tmp:
                    shutil.rmtree(t)


main()
