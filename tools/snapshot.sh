#!/bin/bash
# Refreshes selftest/base, the copy of the package the self-test derives its variants from.
cd "$(dirname "$0")/.." && mkdir -p selftest/base && rm -rf "$PWD/selftest/base/sudokutools"
(cd /repo && tar cf - --exclude=tests --exclude=__pycache__ sudokutools) | tar xf - -C selftest/base
