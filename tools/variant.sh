#!/bin/bash
# variant.sh NAME: writes the selftest variant NAME to a new scratch folder and prints it
cd "$(dirname "$0")/.." && python3 - "$1" <<'P'
import sys, tempfile, os
sys.path.insert(0, '.')
from selftest import mutants, refactors
from selftest.selftest import variant
for p, n, f, o, w in mutants.M:
    if n == sys.argv[1]:
        edits = [(f, o, w)]
for n, e in refactors.R:
    if n == sys.argv[1]:
        edits = e
cur = 'selftest/base'
for i, (f, o, w) in enumerate(edits):
    t = tempfile.mkdtemp(prefix='variant')
    variant(cur, f, o, w, t)
    cur = t
print(cur)
P
