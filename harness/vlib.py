"""Shared machinery of the checks: TLC runner, case execution, verdicts, evidence.

A property module (harness/c01.py, ...) defines

    def check(ctx): ...

and uses ctx.tlc(...) to model-check a specification and collect the cases or
behaviours it emits, and ctx.run_cases(fn, cases) to bind them to the code in
/repo.  `fn(case)` returns a list of mismatch strings (empty = conforms); an
exception or a hang inside fn is a mismatch too (the code under test is called
with inputs the specification allows).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
if os.environ.get("VERIF_EVID"):
    EVID = os.environ["VERIF_EVID"]
NCPU = int(os.environ.get("VERIF_CPUS", str(os.cpu_count() or 4)))

TLA_CP = ":".join([
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
])


class CheckError(Exception):
    """The machinery itself failed (never reported as a violation)."""


def json_default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.assumptions = []
        self.tlc_runs = []
        self.notes = {}
        self.violations = []          # (key, text, case)
        self.known_hits = []
        self.exhaustive = True
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, constants=None, extra=(), timeout=400,
            workers=1, expect_ok=True, count=True, files=None, mem="3g"):
        """Run TLC on spec/<module>.tla; return list of emitted JSON values.

        cfg: name of a config file in spec/ (default <module>.cfg);
        constants: dict of overrides appended/replacing `CONSTANT` lines.
        Emitted values are those printed with  PrintT("@@" \\o ToJson(v)).
        """
        wd = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        for name, text in (files or {}).items():
            with open(os.path.join(wd, name), "w") as fh:
                fh.write(text)
        cfgname = cfg or (module + ".cfg")
        with open(os.path.join(SPEC, cfgname)) as fh:
            text = fh.read()
        for k, v in (constants or {}).items():
            pat = re.compile(r"^(\s*)%s\s*(?:=|<-).*$" % re.escape(k), re.M)
            if not pat.search(text):
                raise CheckError("constant %s not in %s" % (k, cfgname))
            text = pat.sub(lambda m: "%s%s %s%s" % (m.group(1), k, "" if str(v).startswith("<-") else "= ", v), text)
        # values TLC's config syntax cannot express become definitions of a wrapper module
        defs, lines = [], []
        for line in text.split("\n"):
            m = re.match(r"^\s*(\w+)\s*=\s*(.*(?:<<|\|->|\.\.).*)$", line)
            if m:
                defs.append("MC_%s == %s" % m.groups())
                line = "  %s <- MC_%s" % (m.group(1), m.group(1))
            lines.append(line)
        root = module
        if defs:
            root = "MC_" + module
            with open(os.path.join(wd, root + ".tla"), "w") as fh:
                fh.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (
                    root, module, "\n".join(defs)))
        with open(os.path.join(wd, "run.cfg"), "w") as fh:
            fh.write("\n".join(lines))
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:ParallelGCThreads=4" if workers > 1 else "-XX:-UsePerfData", "-Xss64m", "-Xmx" + mem, "-cp", TLA_CP, "tlc2.TLC",
               "-config", "run.cfg", "-workers", str(workers), "-metadir",
               os.path.join(wd, "states"), "-noGenerateSpecTE",
               *extra, root + ".tla"]
        t = time.time()
        out = os.path.join(wd, "out.txt")
        with open(out, "w") as fh:
            try:
                p = subprocess.run(cmd, cwd=wd, stdout=fh, stderr=subprocess.STDOUT,
                                   timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s/%s" % (module, cfgname))
        cases, rest = [], []
        with open(out, errors="replace") as fh:
            for line in fh:
                if line.startswith('"@@'):
                    s = json.loads(line.strip())
                    cases.append(json.loads(s[2:]))
                else:
                    rest.append(line)
        log = "".join(rest)
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", log)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if count:
            self.states += dist
            self.transitions += gen
        self.tlc_runs.append({"module": module, "cfg": cfgname, "rc": rc,
                              "generated": gen, "distinct": dist, "emitted": len(cases),
                              "wall_s": round(time.time() - t, 2)})
        if expect_ok and rc != 0:
            k = max(log.find("Starting..."), 0)
            raise CheckError("TLC rc=%d on %s/%s:\n%s" % (rc, module, cfgname, log[k:k + 3500]))
        shutil.rmtree(wd, ignore_errors=True)
        if not expect_ok:
            return rc, cases, log
        return cases

    # -------------------------------------------------------------- cases
    def run_cases(self, fn, cases, procs=None, timeout=150, label=None):
        """Run fn on every case in forked workers.  Each case counts as one
        validated behaviour.  Returns list of results (None on hang/crash)."""
        cases = list(cases)
        if not cases:
            raise CheckError("no cases for %s" % (label or fn.__name__))
        procs = min(procs or NCPU, len(cases))
        res = parallel(fn, cases, procs, timeout, self.scratch)
        for case, r in zip(cases, res):
            if r["kind"] == "ok":
                mism = r["value"] or []
                if isinstance(mism, dict):      # {"bad": mismatches, "data": whatever the caller asked for}
                    mism = mism["bad"]
            elif r["kind"] == "exc":
                mism = ["exception in code under test: " + r["value"]]
            elif r["kind"] == "machinery":
                raise CheckError("harness error in %s:\n%s" % (fn.__name__, r["value"]))
            else:
                mism = ["no result: " + str(r["value"])]
            self.validated += 1
            for mm in mism:
                self.violation(fn.__name__, mm, case)
        if len(self.samples) < 6:
            for c in (cases[0], cases[len(cases) // 2]):
                self.samples.append(trim({"driver": label or fn.__name__, "case": c}))
        return res

    def violation(self, key, text, case):
        known_txt = self.match_known(key, text, case)
        if known_txt is not None:
            self.known_hits.append(known_txt)
            return
        self.violations.append((key, text, case))

    def match_known(self, key, text, case):
        for k in self.known:
            if k.get("driver") and k["driver"] != key:
                continue
            ids = k.get("case_ids")
            cid = case.get("id") if isinstance(case, dict) else None
            if ids is not None and cid not in ids:
                continue
            if k.get("text") and not re.search(k["text"], text):
                continue
            return k["what"]
        return None

    # ------------------------------------------------------------ verdict
    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples[:8],
                "exhaustive": bool(self.exhaustive),
                "tlc_runs": self.tlc_runs, **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=json_default)
        for k in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        rc = 0
        if self.violations:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as fh:
                json.dump([{"driver": k, "mismatch": t, "case": c}
                           for k, t, c in self.violations[:50]], fh, indent=1,
                          default=json_default)
            seen = set()
            for k, t, c in self.violations:
                if (k, t[:80]) in seen or len(seen) > 12:
                    continue
                seen.add((k, t[:80]))
                print("  mismatch [%s] %s" % (k, t[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.validated,
                time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def trim(o, n=1500):
    s = json.dumps(o, default=json_default)
    if len(s) <= n:
        return json.loads(s)
    return {"truncated_json": s[:n]}


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        data = json.load(fh)
    return [k for k in data.get("findings", []) if k["property"] == prop]


# ------------------------------------------------------------------ parallel
class Machinery(Exception):
    """raise inside a case function for harness-side errors"""


def _worker(fn, cases, todo, path, log):
    os.setpgid(0, 0)
    dn = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    import warnings
    warnings.simplefilter("ignore")
    with open(path, "a") as fh:
        for i in todo:
            fh.write(json.dumps({"i": i, "start": time.time()}) + "\n")
            fh.flush()
            try:
                v = fn(cases[i])
                r = {"i": i, "kind": "ok", "value": v}
            except Machinery:
                r = {"i": i, "kind": "machinery", "value": traceback.format_exc()[-3000:]}
            except SystemExit as e:
                r = {"i": i, "kind": "exc", "value": "SystemExit(%r)" % (e.code,)}
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = any("/CADMium/" in f.filename for f in tb)
                where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                  for f in tb[-4:])
                r = {"i": i, "kind": "exc" if inrepo or isinstance(e, TargetError) or not isinstance(e, (OSError, MemoryError))
                     else "machinery",
                     "value": "%s: %s [%s]" % (type(e).__name__, str(e)[:300], where)}
                if r["kind"] == "machinery":
                    r["value"] = traceback.format_exc()[-3000:]
            fh.write(json.dumps(r, default=json_default) + "\n")
            fh.flush()


class TargetError(Exception):
    """raise inside a case function when the code under test misbehaved in a
    way that leaves no CADMium frame in the traceback."""


def parallel(fn, cases, procs, timeout, scratch):
    d = tempfile.mkdtemp(prefix="par_", dir=scratch)
    results = [None] * len(cases)
    chunks = [list(range(k, len(cases), procs)) for k in range(procs)]
    running = []

    def spawn(todo):
        path = os.path.join(d, "w%d_%d" % (len(os.listdir(d)), time.time_ns()))
        open(path, "w").close()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(fn, cases, todo, path, os.path.join(d, "log"))
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        running.append({"pid": pid, "path": path, "todo": todo, "t": time.time()})

    for c in chunks:
        spawn(c)

    def read(w):
        cur, last = None, w["t"]
        with open(w["path"]) as fh:
            for line in fh:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "start" in r:
                    cur, last = r["i"], r["start"]
                else:
                    results[r["i"]] = r
                    cur, last = None, time.time()
        return cur, last

    while running:
        time.sleep(0.05)
        for w in list(running):
            pid, st = os.waitpid(w["pid"], os.WNOHANG)
            cur, last = None, None
            if pid == 0:
                if time.time() - w.get("polled", 0) < 1.0:
                    continue
                w["polled"] = time.time()
                cur, last = read(w)
                if cur is not None and time.time() - last > timeout:
                    try:
                        os.killpg(w["pid"], signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(w["pid"], 0)
                    results[cur] = {"kind": "hang", "value": "timeout after %ds" % timeout}
                else:
                    continue
            else:
                cur, last = read(w)
                if cur is not None:
                    results[cur] = {"kind": "crash", "value": "process died, status %d" % st}
            try:
                os.killpg(w["pid"], signal.SIGKILL)
            except OSError:
                pass
            running.remove(w)
            left = [i for i in w["todo"] if results[i] is None]
            if left:
                if cur is None:
                    log = os.path.join(d, "log")
                    tail = open(log, errors="replace").read()[-2000:] if os.path.exists(log) else ""
                    raise CheckError("case worker ended without finishing:\n" + tail)
                spawn(left)
    shutil.rmtree(d, ignore_errors=True)
    return results


# ------------------------------------------------------------- target import
def setup_path():
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    stub = os.path.join(VERIF, "harness", "stub")
    for p in (REPO, stub):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, stub)
    sys.path.insert(0, REPO)
