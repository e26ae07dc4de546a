#!/usr/bin/env python3
"""Builds and verifies /verif/seeded/<id>: python3 tools/seeds.py [ids...].  Definitions: tools/seed_defs.py."""
import difflib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_defs import S
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME="/root", TERM="dumb")


def tests(d):
    rep = os.path.join(d, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=120",
                    "--continue-on-collection-errors", "--doctest-modules", "-o", "junit_family=xunit2",
                    "--junitxml=" + rep, "sudokutools"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = os.path.join(d, "out.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + rep], stdout=subprocess.DEVNULL)
    return BASE - set(json.load(open(out))["passed"])


def build(s):
    sid = s["id"]
    dst = os.path.join(ROOT, "seeded", sid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    patch = ""
    new = {}
    for f, o, n in s["edits"]:
        p = "sudokutools/" + f
        src = new.get(p) or open("/repo/" + p).read()
        if src.count(o) != 1:
            return sid, "edit of %s matches %d times" % (f, src.count(o))
        new[p] = src.replace(o, n)
    for p, txt in new.items():
        a = open("/repo/" + p).read()
        patch += "diff --git a/%s b/%s\n" % (p, p)
        for l in difflib.unified_diff(a.splitlines(True), txt.splitlines(True), "a/" + p, "b/" + p):
            patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(dst, "patch.diff"), "w").write(patch)
    open(os.path.join(dst, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(dst, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]},
              open(os.path.join(dst, "meta.json"), "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        d = os.path.join(tmp, "repo")
        shutil.copytree("/repo", d)
        def demo():
            return subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True)
        r0 = demo()
        if r0.returncode:
            return sid, "demo fails on the clean tree: " + (r0.stdout + r0.stderr)[-400:]
        r = subprocess.run(["git", "apply", os.path.join(dst, "patch.diff")], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return sid, "patch does not apply: " + r.stderr
        r1 = demo()
        if not r1.returncode:
            return sid, "demo passes with the patch"
        bad = tests(d)
        if bad:
            return sid, "stable tests fail: %s" % sorted(bad)[:4]
        rc = subprocess.run([sys.executable, os.path.join(ROOT, "run_check.py"), s["prop"]], cwd=ROOT,
                            env=dict(ENV, VERIF_REPO=d, VERIF_NOWRITE="1"), capture_output=True, text=True)
        return sid, "ok; check %s: %s" % (s["prop"], {0: "MISSED", 1: "caught"}.get(rc.returncode, "rc %d" % rc.returncode))
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = sys.argv[1:]
    todo = [s for s in S if not ids or s["id"] in ids or s["prop"] in ids]
    with ThreadPoolExecutor(4) as ex:
        for sid, msg in ex.map(build, todo):
            print(sid, msg, flush=True)
