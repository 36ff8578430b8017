"""C15: orbital solves in worker processes (spec/Workers.tla)."""
import os
import time
import warnings
import multiprocessing as mp
import numpy as np
from lattice import Cmp, graft, grid, orbitals, solver_class

HM = [[2, 1, 0, 1, 0, -1], [1, 3, 1, 0, 1, 0], [0, 1, 2, -1, 0, 1],
      [1, 0, -1, 4, 1, 0], [0, 1, 0, 1, 5, 1], [-1, 0, 1, 0, 1, 4]]


def steered():
    """scripted solver whose workers write, and die, as the schedule says"""
    Lat = solver_class()

    class Steered(Lat):
        def _orb(self, it, solver_id, return_dict):
            c = self.ctl
            with c["count"][self.key].get_lock():
                c["count"][self.key].value += 1
                call = c["count"][self.key].value
            h = c["hist"][call - 1] if call <= len(c["hist"]) else {"order": [], "dead": []}
            died = dict((w, k) for w, k in h["dead"])
            w = c["ids"].index(list(self.key)) + 1
            if died.get(w) == "before":
                self.die()
            if w in h["order"]:
                pos = h["order"].index(w)
                t = time.time()
                while c["turn"].value % 100 < pos and time.time() - t < 1.5:
                    time.sleep(0.001)
            if c.get("slow") and call == len(c["hist"]) and w == h["order"][-1]:
                time.sleep(c["slow"])
            Lat._orb(self, it, solver_id, return_dict)
            with c["turn"].get_lock():
                c["turn"].value += 1
            if died.get(w) == "after":
                self.die()

        def die(self):
            if os.getpid() == self.ctl["parent"]:
                raise RuntimeError("orbital solve failed")
            if self.ctl["how"] == "raise":
                raise RuntimeError("orbital solve failed")
            os._exit(9)

    return Steered


def setup(case, how):
    from CADMium import Kohnsham
    g, W = grid()
    rows, pol = case["shape"]
    nmo = [[2] * pol for _ in range(rows)]
    N = [[(2 if pol == 1 else 1) * (1 if i == 0 else 2) * (2 - (i + j) % 2) for j in range(pol)] for i in range(rows)]
    ks = Kohnsham(g, 2, 3, pol, nmo, N, {"xfunc_id": 9001, "cfunc_id": 9002})
    graft(ks, HM, W, np.array([[-9., -3], [-2, -5], [-4, -8], [-3, 0], [-6, -1], [1, -7]])[:, :pol])
    ctl = {"parent": os.getpid(), "how": how, "hist": case["hist"], "ids": case["ids"],
           "turn": mp.Value("i", 0),
           "count": {(i + 1, j + 1): mp.Value("i", 0) for i in range(rows) for j in range(pol)}}
    cls = steered()
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            s.__class__ = cls
            s.ctl, s.key = ctl, (i + 1, j + 1)
    ks.vext = np.zeros((g.Nelem, pol))
    return ks, g, W, ctl


def drive(case):
    warnings.simplefilter("ignore")
    bad = []
    for it, how in ((False, "raise"), (True, "exit")):
        if "slow" in case and it != case["it"]:
            continue
        ks, g, W, ctl = setup(case, how)
        ctl["slow"] = case.get("slow")
        rows, pol = case["shape"]
        tag = "%d x %d solvers, %s, schedule %s, failures by %s" % (
            rows, pol, "refine" if it else "solve", case["hist"], how)
        for call in range(len(case["hist"])):
            last = call == len(case["hist"]) - 1
            v = np.array([[3., 1], [-4, 9], [7, 2], [0, -5], [2, -2], [-6, 8]])[:, :pol] * (1 + 2 * call)
            ctl["turn"].value = 0
            ks.vhxc = v
            ks.set_effective_potential()
            try:
                n = ks.calc_density(ITERATIVE=it, dif=1e-5)
                ok = True
            except (Exception, SystemExit) as e:
                ok, n = False, e
            if last and case["outcome"] == "error":
                if ok:
                    bad.append("a worker died without a result and calc_density returned normally (%s)" % tag)
                break
            if not ok:
                bad.append("calc_density raised %r although every result was delivered (%s)" % (n, tag))
                break
            cmp = Cmp(tag)
            want = np.zeros((g.Nelem, pol))
            for i in range(rows):
                for j in range(pol):
                    s = ks.solver[i, j]
                    e, phi = orbitals((ks.vnuc + v)[:, j], 2, i, it, g.Nelem)
                    cmp("levels of solver (%d,%d)" % (i, j), s.eig, e)
                    cmp("orbitals of solver (%d,%d)" % (i, j), s.phi, phi)
                    cap = (2 if pol == 1 else 1) * (1 if i == 0 else 2)
                    for k in range(2):
                        occ = min(cap, max(0, s.N - k * cap))
                        want[:, j] += occ * (phi[:, k] != 0) / W
            cmp("density", n, want)
            bad += cmp.bad
            if bad:
                return bad[:3]
    return bad[:3]


def drive_scf(case):
    """a failure in the middle of a self-consistent run surfaces from the run"""
    import contextlib
    import io
    warnings.simplefilter("ignore")
    shape, kill, call, how = case["shape"], case["kill"], case["call"], case["how"]
    ids = [[r + 1, c + 1] for c in range(shape[1]) for r in range(shape[0])]
    hist = [{"order": [], "dead": []} for _ in range(call - 1)] + [{"order": [], "dead": [[kill, "before"]]}]
    ks, g, W, ctl = setup({"shape": shape, "hist": hist, "ids": ids}, how)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            ks.scf({"maxiter": 6, "e_tol": 1e-12, "alpha": 0.5, "iterative": case["it"]})
        except (Exception, SystemExit):
            return []
    if ctl["count"][tuple(ids[kill - 1])].value < call:
        return []                     # the run was over before that solve
    return ["worker %d died in solve %d of a self-consistent run and the run ended normally (%s)" % (kill, call, case)]


def check(ctx):
    c = {"Shapes": "{ <<1,2>>, <<2,1>>, <<2,2>>, <<3,1>>, <<4,1>>, <<3,2>> }"} if False else {}
    if ctx.thorough:
        c = {"MaxDeaths": 2, "Shapes": "{ <<1,2>>, <<2,1>>, <<2,2>>, <<3,1>>, <<4,1>> }"}
    cases = ctx.tlc("Workers", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
    # the last worker takes its time, after all others are done: the parent has to wait for it
    slow, had = [], set()
    for k in cases:
        h = k["hist"]
        mark = (tuple(k["shape"]), h[-1]["order"][-1] if h[-1]["order"] else 0)
        if k["outcome"] == "done" and not any(x["dead"] for x in h) and mark not in had:
            had.add(mark)
            if ctx.thorough or k["shape"] in ([1, 2], [2, 1], [2, 2]):
                slow.append(dict(k, slow=45 if ctx.thorough else 12, it=len(slow) % 2 == 0))
    ctx.run_cases(drive, slow, timeout=200)
    scf = [{"shape": s, "kill": k, "call": n, "how": h, "it": it}
           for s in ([1, 2], [2, 1], [2, 2]) for k in range(1, s[0] * s[1] + 1) for n in (1, 2, 3, 4)
           for h in ("raise", "exit") for it in (True, False)]
    ctx.run_cases(drive_scf, scf)
