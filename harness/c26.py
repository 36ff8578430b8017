"""C26: version strings, from repositories built as the specification says (spec/Version.tla).

Every repository is a real one in a scratch directory; the package's version module is copied into it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

SRC = ["/repo/CADMium/_version.py"]
ATTR = "CADMium/_version.py export-subst\n"
WANT = {"yes": True, "no": False, "none": None}
GIT = shutil.which("git")


def env(scratch, k=1):
    e = {x: v for x, v in os.environ.items() if not x.startswith("GIT_")}
    when = "2021-03-%02d 10:11:%02d +0230" % (1 + k % 27, k % 60)
    e.update(HOME=scratch, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", GIT_CEILING_DIRECTORIES=scratch,
             GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
             GIT_AUTHOR_DATE=when, GIT_COMMITTER_DATE=when, LC_ALL="C")
    return e


def git(scratch, root, *args, k=1):
    p = subprocess.run([GIT, *args], cwd=root, env=env(scratch, k), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError("git %s: %s" % (args, p.stderr.decode()))
    return p.stdout


def source(root):
    os.makedirs(os.path.join(root, "CADMium"))
    shutil.copyfile(SRC[0], os.path.join(root, "CADMium", "_version.py"))
    with open(os.path.join(root, "notes.txt"), "w") as fh:
        fh.write("one\n")
    with open(os.path.join(root, ".gitattributes"), "w") as fh:
        fh.write(ATTR)


def name(t):
    return t["pre"] + t["body"]


def build(scratch, root, repo):
    """the repository of the case; returns full id and date of the last commit"""
    source(root)
    git(scratch, root, "init", "-q", "-b", repo["branch"])
    git(scratch, root, "add", "-A")
    upto = repo["frozen"][0]["at"] if repo["frozen"] else repo["commits"]

    def commits(a, b):
        for k in range(a, b + 1):
            git(scratch, root, "commit", "-q", "--allow-empty", "-m", "c%d" % k, k=k)
            for t in repo["tags"]:
                if t["at"] == k:
                    kind = ["-a", "-m", "x"] if t["t"]["ord"] % 2 else []
                    git(scratch, root, "tag", *kind, name(t["t"]), k=k)
    commits(1, upto)
    state = (git(scratch, root, "rev-parse", "HEAD").decode().strip(),
             git(scratch, root, "show", "-s", "--format=%ci", "HEAD").decode().strip())
    tree = root
    if repo["place"] == "archive":
        tar = git(scratch, root, "archive", "HEAD")
        tree = root + "_unpacked"
        os.makedirs(tree)
        subprocess.run(["tar", "x"], cwd=tree, input=tar, check=True)
        if repo["commits"] > upto:
            commits(upto + 1, repo["commits"])
            shutil.copyfile(os.path.join(tree, "CADMium", "_version.py"), os.path.join(root, "CADMium", "_version.py"))
            tree = root
    elif repo["dirty"]:
        with open(os.path.join(root, "notes.txt"), "a") as fh:
            fh.write("two\n")
    return tree, state


FAKE = """#!/bin/sh
case "$1" in
%s
esac
exec "%s" "$@"
"""
FAKES = {"nodescribe": "describe) exit 3;;", "nohead": 'rev-parse) if [ "$2" = HEAD ]; then exit 3; fi;;',
         "nonsense": "describe) echo 1.0-x-g0a1; exit 0;;",
         "alien": "describe) echo 1.0-2-g0a1b2c3; exit 0;;"}
_N = [0]


def load(tree, ask):
    _N[0] += 1
    spec = importlib.util.spec_from_file_location("ver_%d" % _N[0], os.path.join(tree, "CADMium", "_version.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cfg = m.get_config()
    cfg.style = ask["style"] if ask["style"] else (None if _N[0] % 2 else "")
    cfg.tag_prefix = ask["prefix"]
    cfg.parentdir_prefix = "PyC-" if ask["pd"] != 9 or _N[0] % 2 else None
    cfg.verbose = False
    m.get_config = lambda: cfg
    return m


def compare(got, ans, full, date, tag):
    """got: a dictionary or an exception; ans: the admissible answers"""
    bad = []
    for a in ans:
        w = a["version"].replace("<H>", full[:7])
        if w == "raises":
            if isinstance(got, ValueError):
                return []
            bad.append("should be refused, got %r" % (got,))
            continue
        if isinstance(got, Exception):
            bad.append("raised %r, want %s" % (got, w))
            continue
        d = date.replace(" ", "T", 1).replace(" ", "", 1) if a["date"] == "<D>" else None
        want = {"version": w, "full-revisionid": full if a["id"] == "<F>" else None,
                "dirty": WANT[a["dirty"]], "date": d}
        diff = ["%s is %r, want %r" % (k, got.get(k, "missing"), v) for k, v in want.items()
                if k not in got or got[k] != v or type(got[k]) is not type(v)]
        if (got.get("error") is not None) != a["error"]:
            diff.append("error is %r" % (got.get("error"),))
        if not diff:
            return []
        bad.append("; ".join(diff))
    return ["%s: %s" % (tag, " | or ".join(bad))]


def drive(case):
    repo, out = case["repo"], []
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="ver_", dir=case["scratch"]))
    old = dict(os.environ)
    try:
        root = os.path.join(scratch, "work")
        os.makedirs(root)
        tree, (full, date) = (root, ("0" * 40, "")) if repo["place"] == "plain" else build(scratch, root, repo)
        if repo["place"] == "plain":
            source(root)
        os.environ.clear()
        os.environ.update(env(scratch))
        for a in case["asks"]:
            ask, ans = a["ask"], a["ans"]
            tag = "%d commits, tags %s, %s%s, %s" % (
                repo["commits"], ["%s@%d" % (name(t["t"]), t["at"]) for t in repo["tags"]], repo["place"],
                " edited" if repo["dirty"] else "", ask)
            t, q = tree, ask["quirk"]
            os.environ["PATH"] = old["PATH"]
            if q in FAKES:
                b = os.path.join(scratch, "bin_" + q)
                if not os.path.isdir(b):
                    os.makedirs(b)
                    with open(os.path.join(b, "git"), "w") as fh:
                        fh.write(FAKE % (FAKES[q], GIT))
                    os.chmod(os.path.join(b, "git"), 0o755)
                os.environ["PATH"] = b + os.pathsep + old["PATH"]
            elif q == "nogit":
                os.environ["PATH"] = os.path.join(scratch, "nothing")
            if q != "none" or repo["place"] == "plain":
                parts = ["w", "x", "y", "z"] if ask["pd"] == 9 else \
                    ["PyC-9.9" if i > ask["pd"] else "PyC-7.%d" % i if i == ask["pd"] else "w%d" % i
                     for i in (3, 2, 1, 0)]
                t = os.path.join(scratch, "d%d" % _N[0], *parts)
                os.makedirs(os.path.dirname(t))
                if q == "norepo" or repo["place"] == "plain":
                    os.makedirs(t)
                    source(t)
                else:
                    shutil.copytree(tree, t)
            try:
                m = load(t, ask)
                got = m.get_versions()
            except Exception as e:
                got = e
            out += compare(got, ans, full, date, tag)
            if repo["place"] == "archive" and not isinstance(got, Exception):
                # the same file read instead of run, and the references as older versions of git wrote them
                path = os.path.join(t, "CADMium", "_version.py")
                kw = m.HANDLERS["git"]["get_keywords"](path)
                if kw != m.get_keywords():
                    out.append("%s: the file says %s, the module %s" % (tag, kw, m.get_keywords()))
                if repo["branch"] == "master":
                    kw = dict(kw, refnames=kw["refnames"].replace("tag: ", "").replace("HEAD -> ", "HEAD, "))
                    try:
                        got = m.HANDLERS["git"]["keywords"](kw, ask["prefix"], False)
                    except Exception as e:
                        got = e
                    out += compare(got, ans, full, date, tag + " old references")
    finally:
        os.environ.clear()
        os.environ.update(old)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def drive_rest(case):
    """what cannot come out of a repository: no keywords, no file; and the package's own answer"""
    import CADMium
    from CADMium import _version as m
    bad = []
    v = m.get_versions()
    if CADMium.__version__ != v["version"] or CADMium.__git_revision__ != v["full-revisionid"]:
        bad.append("the package says %r %r, its version module %s" % (CADMium.__version__, CADMium.__git_revision__, v))
    if not isinstance(v["version"], str) or not v["version"]:
        bad.append("the package's version is %r" % (v["version"],))
    if m.HANDLERS["git"]["get_keywords"](os.path.join(case["scratch"], "no-such-file")) != {}:
        bad.append("keywords from a file that is not there")
    for kw in ({}, {"refnames": "$Format:%d$", "full": "$Format:%H$", "date": "$Format:%ci$"}):
        try:
            got = m.HANDLERS["git"]["keywords"](dict(kw), "", False)
            bad.append("%s gave a version: %s" % (kw, got))
        except m.NotThisMethod:
            pass
    return bad


def check(ctx):
    import CADMium
    SRC[0] = os.path.join(os.path.dirname(os.path.abspath(CADMium.__file__)), "_version.py")
    con = {"TagNames": "<- MoreTags", "Jumps": "<- MoreJumps"} if ctx.thorough else {}
    rows = ctx.tlc("Version", constants=con, workers=4, timeout=800)
    groups = {}
    for r in rows:
        repo = {k: r[k] for k in ("commits", "tags", "dirty", "branch", "place", "frozen")}
        repo["tags"] = sorted(repo["tags"], key=lambda t: t["t"]["ord"])
        groups.setdefault(json.dumps(repo, sort_keys=True), []).append({"ask": r["ask"], "ans": r["ans"]})
    cases = [{"id": "repo%d" % i, "repo": json.loads(k), "asks": v, "scratch": ctx.scratch}
             for i, (k, v) in enumerate(sorted(groups.items()))]
    ctx.run_cases(drive, cases, timeout=240)
    ctx.run_cases(drive_rest, [{"id": "rest", "scratch": ctx.scratch}])
    ctx.notes["answers_compared"] = len(rows)
    ctx.assumptions += ["git of this sandbox builds and describes the repositories"]
