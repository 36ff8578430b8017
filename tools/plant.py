"""Create and validate one planted bug.

  python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS: list of dicts id, property, edits [(file, old, new), ..], needs, breaks, demo (python source).
Writes seeded/<id>/ and verifies it in a scratch copy of /repo:  patch applies, only original
lines change, tests pass, the demo fails with it and passes without, and reports whether the
property's quick check catches it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "e4de5fc"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def plant(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    wt = "/tmp/plant_%s" % b["id"]
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        assert not sh("git status --porcelain --untracked-files=no", wt).stdout.strip()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, "old text found %d times" % s.count(old))
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", wt).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        if "pylibxc" in b["demo"] or "Kohnsham" in b["demo"] or "Partition" in b["demo"] or "Libxc" in b["demo"] or b.get("stub"):
            shutil.copytree(os.path.join(ROOT, "harness/stub/pylibxc"), os.path.join(d, "pylibxc"),
                            ignore=shutil.ignore_patterns("__pycache__"))
        # changed lines are original ones
        orig = []
        for h in sh("git diff -U0", wt).stdout.split("\n"):
            if h.startswith("@@"):
                orig.append(h)
        bad = []
        fname = None
        for line in sh("git diff -U0", wt).stdout.split("\n"):
            if line.startswith("--- a/"):
                fname = line[6:]
            elif line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for k in range(start, start + n):
                    bl = sh("git blame -l -L %d,%d HEAD -- %s" % (k, k, fname), "/repo").stdout.split()[0].lstrip("^")
                    if sh("git merge-base --is-ancestor %s %s" % (bl, BASE), "/repo").returncode:
                        bad.append((fname, k))
        r0 = sh("bash %s/demo.sh" % d, "/repo")
        r1 = sh("bash %s/demo.sh" % d, wt)
        shutil.copytree("/opt/vp/harness", wt + "/vph")
        sh("sed -i 's#/repo#%s#g' %s/vph/*.py" % (wt, wt))
        test = sh("sed -e 's#/repo#%s#g' -e 's#/opt/vp/harness#%s/vph#g' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json" % (wt, wt, wt, wt, wt), wt)
        ok = "50 passed, 0 failed" in test.stdout
        c = sh("bin/check %s quick" % b["property"], ROOT, {"VERIF_REPO": wt, "VERIF_EVID": wt + "/ev"})
        caught = c.returncode == 1 and "VIOLATION property=%s" % b["property"] in c.stdout
        v = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION") or "  - " in x][:3]
        print("%-34s %s demo %d/%d tests %s added-lines %s -> %s rc=%d" % (
            b["id"], b["property"], r0.returncode, r1.returncode, "ok" if ok else "FAIL", bad or "none",
            "caught" if caught else "MISSED", c.returncode))
        if r0.returncode or not r1.returncode:
            print((r0.stdout + r0.stderr)[-600:], "\n---\n", (r1.stdout + r1.stderr)[-600:])
        if not ok:
            print(test.stdout[-500:])
        if not caught:
            print(c.stdout[-800:])
        elif "-v" in sys.argv:
            print(c.stdout[-600:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(plant, [b for b in runpy.run_path(sys.argv[1])["BUGS"] if not want or b["id"] in want]))
