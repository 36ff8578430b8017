"""C24: density inversion (spec/Inversion.tla, spec/InvLoop.tla)."""
import contextlib
import io
import json
import warnings
import numpy as np
from scipy.linalg import eig
from c25 import Drive
from invops import Session, tag

HUGE = 1e2


def potentials(s, step, cmp):
    s.state(step, cmp)


# ------------------------------------------------- runs with growing limits
class Lattice:
    """one of the specification's systems"""

    def __init__(self, case, meth, spin):
        self.case = dict(case, meth=meth)
        self.spin, self.meth = spin, meth

    def fresh(self):
        s = Session(self.case)
        self.s, self.g, self.inv, self.solver = s, s.g, s.inv, s.solver
        t = s.target({"spin": self.spin + 1, "what": "proper"})
        return t, s.start(self.spin, 0)

    def density(self, v):
        return self.s.lowest(v, self.spin)[0]


class Real:
    """orbitals of a two-centre potential on the package's own grid"""

    def __init__(self, case, meth, spin):
        from c11 import grid
        self.c, self.meth, self.spin = case, meth, spin
        self.g = grid(case["grid"])[0]

    def levels(self, r, v):
        g = self.g
        h = np.asarray((-0.5 * (g.olap if r % 2 else g.elap)).todense()) / g.w[:, None] + r * r * np.diag(g.f)
        e, u = eig(h + np.diag(v))
        k = np.argsort(e.real)
        return e.real[k], u.real[:, k]

    def orbitals(self, v):
        c, out = self.c, []
        for r in range(len(c["N"])):
            cap = (2 if c["pol"] == 1 else 1) * (2 if r else 1)
            e, u = self.levels(r, v)
            for k in range(c["nmo"][r][self.spin]):
                f = u[:, k]
                o = min(max(c["N"][r][self.spin] - k * cap, 0), cap)
                out.append((e[k], f * (o / self.g.integrate(f * f)) ** 0.5))
        return out

    def density(self, v):
        return sum(f * f for _, f in self.orbitals(v))

    def fresh(self):
        from CADMium import Inverter, Pssolver
        c, g = self.c, self.g
        v = sum(-q / np.sqrt((g.Z - z) ** 2 + g.Y ** 2 + 0.09) for q, z in ((2.0 + 0.2 * self.spin, g.a), (c["z"], -g.a)))
        self.solver = Pssolver(g, c["nmo"], c["N"], {"fractional": c["frac"], "sym": c["sym"]})
        self.inv = Inverter(g, self.solver, {"invert_type": self.meth, "ab_sym": c["sym"]})
        o = self.orbitals(v)
        phi = np.concatenate([f * (1 + 0.05 * np.cos(np.arange(f.size) + (g.mirror(np.arange(f.size)) if c["sym"] else 0)))
                              for _, f in o])
        return (c["pol"] * sum(f * f for _, f in o),
                ((v + 0.1 * np.exp(-g.Z ** 2))[:, None], phi[:, None], np.array([e for e, _ in o]) + 0.01))


def one(sys, limit, tol):
    t, (v0, phi0, e0) = sys.fresh()
    inv, p = sys.inv, sys.spin
    inv.optInv.max_iter_invert, inv.optInv.tol_invert = limit, tol
    if sys.meth == "simple":
        for i in range(sys.solver.shape[0]):
            sys.solver[i, p].setveff(v0[:, 0].copy())
    with contextlib.redirect_stdout(io.StringIO()):
        flag, info = inv.invert(t.copy(), v0, phi0, e0, p)
    n0 = t / sys.solver.shape[1]
    n = sys.density(inv.vs[:, p])
    err = sys.g.integrate(abs(n - n0)) / sys.g.integrate(n0)
    need = max(tol, 1e-8)
    if sys.meth == "wuyang":
        col = [f for f in np.ravel(np.asarray(flag, dtype=object)) if f is not None]
        info = [i for i in np.ravel(np.asarray(info, dtype=object)) if i is not None][0]
        good = all(f > 0 for f in col)
        own = info.status > 0
        meets = own and bool(err <= need) if not 0.9 < err / need < 1.1 else good
        res = repr(float(info.cost))
    else:
        good, info = bool(flag), np.ravel(info)[0]
        meets = bool(info.optimality <= tol)
        own = meets or (sys.meth == "orbitalinvert" and bool(info.optimality > HUGE))
        res = repr(float(info.optimality))
    return {"limit": limit, "nfev": int(info.nfev), "res": res, "own": bool(own), "meets": bool(meets),
            "close": bool(err <= 20 * need), "flag": bool(good)}


def trace(case):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys = (Real if "grid" in case else Lattice)(case["sys"] if "sys" in case else case, case["meth"], case["spin"])
    runs = [one(sys, k, case["tol"]) for k in range(1, case["K"] + 1)]
    return {"bad": [], "data": {"runs": runs}}


class Trace:
    __name__ = "runs with growing limits"

    def __call__(self, case):
        return trace(case)


def refused(case):
    """methods that are offered but not there do not pretend to have worked"""
    from invops import Session
    warnings.simplefilter("ignore")
    s = Session(dict(case["sys"], meth="wuyang"))
    s.inv.optInv.invert_type = case["type"]
    t = s.target({"spin": 1, "what": "proper"})
    try:
        flag, _ = s.inv.invert(t, *s.start(0, 0), 0)
    except Exception:
        return []
    n = s.lowest(s.inv.vs[:, 0], 0)[0] if s.inv.vs is not None else 0 * t
    if np.all(np.asarray(flag, dtype=object).astype(bool)) and np.max(abs(n - s.n[:, 0])) > 1e-5:
        return ["%s reports success without the density" % case["type"]]
    return []


FAKES = [
    ("", [(1, 1, "a", 0, 0, 0, 0), (2, 2, "b", 1, 1, 1, 1), (3, 2, "b", 1, 1, 1, 1)]),
    ("iterations beyond the limit", [(1, 2, "a", 0, 0, 0, 0)]),
    ("success without the density", [(1, 1, "a", 1, 1, 0, 1)]),
    ("success with a residual above the tolerance", [(1, 1, "a", 1, 0, 1, 1)]),
    ("failure reported with the target met", [(1, 1, "a", 1, 1, 1, 0)]),
    ("stopped without a reason before the limit", [(1, 1, "a", 0, 0, 0, 0), (2, 1, "a", 0, 0, 0, 0)]),
    ("went on after the reason to stop", [(1, 1, "a", 1, 1, 1, 1), (2, 2, "b", 1, 1, 1, 1)]),
    ("stopped where a shorter run went on", [(1, 1, "a", 0, 0, 0, 0), (2, 1, "b", 1, 1, 1, 1)]),
]


def fake(runs):
    return {"runs": [dict(zip(("limit", "nfev", "res"), r[:3]),
                          **dict(zip(("own", "meets", "close", "flag"), map(bool, r[3:])))) for r in runs]}


def check(ctx):
    from vlib import CheckError
    cases = ctx.tlc("Inversion", constants={"Systems": "<- MoreSystems" if ctx.thorough else "<- SomeSystems"},
                    timeout=800, workers=8)
    ctx.run_cases(Drive(potentials, ctx.seed), cases)

    first = {}
    for c in cases:
        key = json.dumps([c["pol"], c["ess"], c["sym"], c["n4"], c["phi"], c["lev"]])
        first.setdefault(key, c)
    systems = list(first.values())
    todo = []
    for c in systems[::1 if ctx.thorough else 2]:
        for meth, tols, K in (("orbitalinvert", (1e-2, 1e-4, 1e-9), 9), ("wuyang", (1e-3, 1e-9), 9), ("simple", (3e-2, 1e-2), 12)):
            if c["ess"] and meth == "simple":
                continue
            for spin in range(1 if c["ess"] else c["pol"]):
                for tol in tols:
                    todo.append({"sys": c, "meth": meth, "spin": spin, "tol": tol, "K": K + (8 if ctx.thorough else 0)})
    real = []
    for k, (pol, nmo, N, frac, sym) in enumerate((
            (1, [[1]], [[2]], False, False), (1, [[2]], [[4]], False, False), (1, [[2]], [[3]], True, False),
            (1, [[1], [1]], [[2], [4]], False, False), (1, [[2], [1]], [[4], [4]], False, False),
            (2, [[2, 1]], [[2, 1]], False, False), (2, [[1, 1], [1, 1]], [[1, 1], [2, 2]], False, False),
            (1, [[1]], [[2]], False, True), (1, [[2]], [[4]], False, True), (1, [[2], [1]], [[4], [4]], False, True))):
        for meth, tols, K in (("orbitalinvert", (1e-4, 1e-9), 7), ("wuyang", (1e-9,), 7), ("simple", (1e-2,), 4)):
            for spin in range(pol):
                for tol in tols:
                    z = 2.0 + 0.2 * spin if sym else 1.5
                    real.append({"grid": "abc"[k % 3] if ctx.thorough else "a", "pol": pol, "nmo": nmo, "N": N, "frac": frac,
                                 "sym": sym, "z": z, "meth": meth, "spin": spin, "tol": tol, "K": K})
    todo += real
    got = ctx.run_cases(Trace(), todo)
    ok = [(c, r["value"]["data"]) for c, r in zip(todo, got) if r["kind"] == "ok"]
    traces = [fake(r) for _, r in FAKES] + [d for _, d in ok]
    verdict = {v["id"]: v for v in ctx.tlc("InvLoop", timeout=600, workers=1, files={"traces.json": json.dumps(traces)})}
    if len(verdict) != len(traces):
        raise CheckError("%d verdicts on %d traces" % (len(verdict), len(traces)))
    for k, (why, _) in enumerate(FAKES):
        if verdict[k + 1]["why"] != why:
            raise CheckError("the monitor says %r of a trace that is %r" % (verdict[k + 1]["why"], why))
    succeeded = 0
    for k, (c, d) in enumerate(ok):
        v = verdict[len(FAKES) + k + 1]
        succeeded += any(r["flag"] for r in d["runs"])
        if v["why"]:
            what = ("%s spin %d tol %g %s" % (c["meth"], c["spin"] + 1, c["tol"],
                    "grid %s pol %d nmo %s N %s sym %s" % (c["grid"], c["pol"], c["nmo"], c["N"], c["sym"]) if "grid" in c
                    else tag(dict(c["sys"], meth=c["meth"]))))
            ctx.violation("growing limits", "%s in run %d: %s (%s)" % (
                v["why"], v["at"], d["runs"][max(v["at"] - 2, 0):v["at"]], what), c)
    ctx.notes["traces that reach their target"] = succeeded
    if succeeded < len(ok) // 2 and not ctx.violations:
        raise CheckError("only %d of %d recorded loops reach their target" % (succeeded, len(ok)))
    ctx.run_cases(refused, [{"type": t, "sys": systems[0]} for t in ("qinvert", "eigensolveinvert", "test")])
