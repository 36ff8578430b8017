"""Systematic small changes to the package, to see which the checks miss (development aid; no check uses it).

  python3 tools/mutate.py OUT.jsonl WORKERS SECONDS [FILE ...]

Works on copies under /tmp/mut_*: of the repository, and of this directory with TLC's answers cached
(they do not depend on the repository).
"""
import ast
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import time
from multiprocessing import Process, Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/CADMium"
PAIRS = {}
for a, b in (("KSa", "KSb"), ("KSA", "KSB"), ("nu_a", "nu_b"), ("Nmo_a", "Nmo_b"), ("N_a", "N_b"), ("Za", "Zb"), ("va", "vb"),
             ("na_frac", "nb_frac"), ("elap", "olap"), ("gradz", "gradr"), ("max", "min"), ("sin", "cos"), ("sinh", "cosh"),
             ("freeze_a", "freeze_b"), ("hr", "ha"), ("nafrac", "nbfrac")):
    PAIRS[a], PAIRS[b] = b, a
PAIRS.update({"KSa ": "KSA"})
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


OUTSIDE = ("twoorbital", "surpris", "'potential_inversion'", "overlap_hxc_2", '== "fixed"', "qinvert", "eigensolve", '"test"')


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()) + 1)
    raw = src.encode()
    pos = lambda n: starts[n.lineno - 1] + n.col_offset
    end = lambda n: starts[n.end_lineno - 1] + n.end_col_offset
    text = lambda n: raw[pos(n):end(n)].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn", "ValueError"):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.If) and "disp" in text(n.test):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n))
        # branches outside the properties
        if isinstance(n, ast.If) and any(x in text(n.test) for x in OUTSIDE) and "or" not in text(n.test):
            skip.update(id(m) for b in n.body for m in ast.walk(b))
    out = []

    def put(n, a, b, new, kind):
        out.append((n.lineno, kind, a, b, new))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, end(n.left), pos(n.comparators[0]), " %s " % CMP[type(n.ops[0])], "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            mid = raw[end(n.left):pos(n.right)].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}[type(n.op)]
            if mid.count(sym) >= 1 and "#" not in mid:
                put(n, end(n.left), pos(n.right), mid.replace(sym, BIN[type(n.op)], 1), "operator")
        elif isinstance(n, ast.BoolOp):
            a, b = n.values[0], n.values[1]
            mid = raw[end(a):pos(b)].decode()
            w = "and" if isinstance(n.op, ast.And) else "or"
            put(n, end(a), pos(b), mid.replace(w, "or" if w == "and" else "and"), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, pos(n), pos(n.operand), " ", "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, pos(n), end(n), str(not n.value), "flag")
            elif isinstance(n.value, int):
                put(n, pos(n), end(n), str(n.value + 1), "number+")
                if n.value > 0:
                    put(n, pos(n), end(n), str(n.value - 1), "number-")
            elif isinstance(n.value, float):
                put(n, pos(n), end(n), repr(n.value * 2 if n.value else 1.0), "float")
        elif isinstance(n, ast.Attribute) and n.attr in PAIRS:
            put(n, end(n) - len(n.attr), end(n), PAIRS[n.attr], "attr")
        elif isinstance(n, ast.Name) and n.id in PAIRS:
            put(n, pos(n), end(n), PAIRS[n.id], "name")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put(n, pos(n), end(n), "pass", "delete")
            if isinstance(n, ast.AugAssign):
                t = text(n)
                for x, y in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")):
                    if x in t:
                        put(n, pos(n), end(n), t.replace(x, y, 1), "augment")
                        put(n, pos(n), end(n), t.replace(x, "=", 1), "augment=")
                        break
        elif isinstance(n, ast.If):
            put(n, pos(n.test), end(n.test), "True", "if true")
            put(n, pos(n.test), end(n.test), "False", "if false")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, pos(n), end(n), "pass", "jump")
    for ln, kind, a, b, new in out:
        yield ln, kind, raw[a:b].decode(), new, (raw[:a] + new.encode() + raw[b:]).decode()


def order():
    """checks by anchor file, fast ones first"""
    wall = {}
    for p in os.listdir(os.path.join(ROOT, "evidence")):
        if p.endswith(".json"):
            d = json.load(open(os.path.join(ROOT, "evidence", p)))
            wall[d["property"]] = d["wall_s"]
    by = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        s = json.dumps(d)
        for f in set(x for x in _files() if x in s):
            by.setdefault(f, []).append(d["id"])
    return {f: sorted(v, key=lambda i: wall.get(i, 99)) for f, v in by.items()}


def _files():
    out = []
    for r, ds, fs in os.walk(PKG):
        if "tests" in r:
            continue
        out += [os.path.relpath(os.path.join(r, f), "/repo") for f in fs if f.endswith(".py") and f != "__init__.py"]
    return sorted(out)


CACHE = '''
        ckey = __import__("hashlib").sha256(json.dumps([SPECHASH, sorted((files or {}).items()), lines, root, defs, list(extra)]).encode()).hexdigest()
        cpath = os.path.join("/tmp/mut_cache", ckey)
        if expect_ok and os.path.exists(cpath):
            with open(cpath) as fh:
                return json.load(fh)
'''


def verif(to):
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(ROOT, to, ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
    p = os.path.join(to, "harness/vlib.py")
    s = open(p).read()
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(to, "spec"))):
        h.update(open(os.path.join(to, "spec", f), "rb").read())
    s = s.replace("        cmd = [\"java\"", CACHE.replace("SPECHASH", repr(h.hexdigest())) + "        cmd = [\"java\"", 1)
    s = s.replace("        if not expect_ok:\n", "        else_ = os.makedirs('/tmp/mut_cache', exist_ok=True)\n        if expect_ok:\n"
                  "            with open(cpath + str(os.getpid()), 'w') as fh:\n                json.dump(cases, fh)\n"
                  "            os.rename(cpath + str(os.getpid()), cpath)\n        if not expect_ok:\n", 1)
    open(p, "w").write(s)


def worker(k, jobs, done, by):
    repo, ver = "/tmp/mut_%d" % k, "/tmp/mut_v%d" % k
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    verif(ver)
    env = dict(os.environ, VERIF_REPO=repo)
    while True:
        job = jobs.get()
        if job is None:
            return
        f, ln, kind, old, new, src = job
        path = os.path.join(repo, f)
        keep = open(path).read()
        res = {"file": f, "line": ln, "kind": kind, "old": old, "new": new, "src": keep.split("\n")[ln - 1].strip()}
        try:
            try:
                compile(src, f, "exec")
            except SyntaxError:
                continue
            open(path, "w").write(src)
            got = []
            for c in by[f]:
                t = time.time()
                try:
                    p = subprocess.run([os.path.join(ver, "bin/check"), c, "quick"], env=env, capture_output=True, text=True, timeout=600)
                    rc, last = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, last = "timeout", ""
                got.append([c, rc, round(time.time() - t, 1)])
                if rc == 1:
                    break
                if rc not in (0, 1):
                    res.setdefault("log", last[-1500:])
            res["checks"] = got
            res["killed"] = got[-1][1] == 1
            done.put(res)
        finally:
            open(path, "w").write(keep)


def main():
    out, n, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    only = sys.argv[4:]
    by = order()
    seen = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            seen.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    todo = []
    for f in _files():
        if f not in by or "paramke" in f or (only and not any(o in f for o in only)):
            continue
        for m in mutants(os.path.join("/repo", f)):
            if (f,) + m[:4] not in seen:
                todo.append((f,) + m)
    random.Random(len(seen)).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    if secs <= 0:
        return
    jobs, done = Queue(2), Queue()
    ws = [Process(target=worker, args=(k, jobs, done, by)) for k in range(n)]
    for w in ws:
        w.start()
    t0 = time.time()
    it = iter(todo)
    import queue
    import threading

    def feed():
        for j in it:
            if time.time() - t0 > secs:
                break
            jobs.put(j)
        for _ in ws:
            jobs.put(None)
    threading.Thread(target=feed, daemon=True).start()
    with open(out, "a") as fh:
        while any(w.is_alive() for w in ws) or not done.empty():
            try:
                r = done.get(timeout=1)
            except queue.Empty:
                continue
            fh.write(json.dumps(r) + "\n")
            fh.flush()
    for k in range(n):
        shutil.rmtree("/tmp/mut_%d" % k, ignore_errors=True)
        shutil.rmtree("/tmp/mut_v%d" % k, ignore_errors=True)


if __name__ == "__main__":
    main()
