"""Plant a bug: python3 tools/plant.py specs.py [id ...]

specs.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Each bug is confirmed (builds, stable tests pass, demo fails with it and passes without) before
seeded/<id>/ is written.  /repo is restored afterwards.
"""
import json
import os
import runpy
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests_ok():
    out = tempfile.mktemp(suffix=".json")
    sh("bash /opt/vp/test.sh " + out)
    try:
        r = json.load(open(out))
    finally:
        os.path.exists(out) and os.remove(out)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(r.get("passed", [])) if isinstance(r.get("passed"), list) else {k for k, v in r.get("tests", r).items() if v in ("passed", "pass", True)}
    return sorted(stable - passed)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = False
        try:
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode != 0:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-500:], r.stderr[-800:])
                continue
            for f, old, new in b["edits"]:
                p = "/repo/src/hypervehicle/" + f
                s = open(p).read()
                if s.count(old) < 1:
                    print(b["id"], "PATTERN NOT FOUND", old)
                    break
                open(p, "w").write(s.replace(old, new, 1))
            else:
                diff = sh("git -C /repo diff").stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                if sh("bash /opt/vp/build.sh").returncode:
                    print(b["id"], "BUILD FAILS")
                    continue
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                if r.returncode == 0:
                    print(b["id"], "DEMO PASSES WITH BUG", r.stdout[-300:])
                    continue
                miss = tests_ok()
                if miss:
                    print(b["id"], "TESTS FAIL", miss)
                    continue
                c = sh("python3 -m hvsa " + b["property"], cwd=ROOT)
                ok = True
                print(b["id"], "confirmed; check exit", c.returncode, c.stdout.splitlines()[1:2], (r.stderr.splitlines() or [""])[-1])
        finally:
            sh("git -C /repo checkout -- .")
            sh("find /repo/src -name __pycache__ -type d -prune -exec rm -rf {} +")
            if not ok:
                sh("rm -rf " + d)


main()
