"""Inversion sessions on the lattice (spec/Inversion.tla): C24, C25."""
import contextlib
import io
import warnings
import numpy as np
from scipy.linalg import eigh
from scipy.sparse import csc_matrix
from lattice import Cmp, arr, q

_G = {}
TOL = 1e-10


def grid(case):
    from CADMium import Psgrid
    if "g" not in _G:
        g = Psgrid(2, [2, 1], 1.25, 1.6, np.array([-1, 0, 1]))
        g.initialize()
        g.operators()
        g.wi = 0.75 * np.ones_like(g.wi) / (2 * np.pi * g.ha * g.hr)
        g.f = np.ones_like(g.f)
        _G["g"] = g
    g = _G["g"]
    g.w = np.array(case["wt"], dtype=float)
    kin = [np.array([[q(x) for x in row] for row in k]) for k in case["kin"]]
    g.elap = csc_matrix(-2 * kin[0])
    g.olap = csc_matrix(-2 * (kin[1] - np.diag(g.w))) if len(kin) > 1 else csc_matrix(np.zeros((6, 6)))
    return g, kin


class Session:
    def __init__(self, case, seed=0):
        from CADMium import Inverter, Pssolver
        self.c = case
        self.g, self.kin = grid(case)
        n4 = case["n4"]
        self.pol, self.rows = case["pol"], len(n4)
        self.N = [[k / 4 if k % 4 else k // 4 for k in row] for row in n4]
        cap = lambda r: (2 if self.pol == 1 else 1) * (2 if r else 1)
        self.frac = any(k % (4 * cap(r)) for r, row in enumerate(n4) for k in row)
        self.cap = cap
        self.solver = Pssolver(self.g, case["nocc"], self.N, {"fractional": self.frac, "sym": case["sym"]})
        self.inv = Inverter(self.g, self.solver, {"invert_type": case["meth"], "ab_sym": case["sym"],
                                                  "ens_spin_sym": case["ess"], "tol_invert": TOL, "max_iter_invert": 60})
        self.n, self.v, self.vt = arr(case["n"]), arr(case["v"]), arr(case["vt"])
        self.rng = np.random.default_rng([seed, len(str(case["phi"])), sum(case["n4"][0])])
        self.kept = []

    def occ(self, r, p, k):
        return min(max(self.c["n4"][r][p] / 4 - k * self.cap(r), 0), self.cap(r))

    def top(self, p):
        return max(q(self.c["lev"][p][r][k]) for r in range(self.rows) for k in range(self.c["nocc"][r][p]))

    def start(self, p, first):
        """perturbed orbitals (normalised to their occupation), levels and potential"""
        c, g, rng = self.c, self.g, self.rng
        even = lambda a: 0.5 * (a + g.mirror(a)) if c["sym"] else a
        phi, e = [], []
        for r in range(self.rows):
            for k in range(c["nocc"][r][p]):
                f = np.array(c["phi"][p][r][k], dtype=float)
                f = f * (1 + 0.03 * even(rng.uniform(-1, 1, f.size)))
                f *= (self.occ(r, p, k) / g.integrate(f * f)) ** 0.5
                phi.append(f)
                e.append(q(c["lev"][p][r][k]) + 0.02 * rng.uniform(-1, 1))
        v = self.v[:, p] + 0.06 * even(rng.uniform(-1, 1, self.v.shape[0]))
        return v[:, None], np.concatenate(phi)[:, None], np.array(e)

    def target(self, op):
        """what is asked for: both columns, or one, doubled when solvers are polarized"""
        t = self.n.copy() if op["spin"] == 0 else self.n[:, op["spin"] - 1] * self.pol
        if op["what"] == "wrong":
            t = t * 1.5
        if op["what"] == "nan":
            t[2] = np.nan
        return t

    def do(self, step, k):
        op = step["op"]
        p = max(op["spin"] - 1, 0)
        self.inv.optInv.max_iter_invert = 1 if op["what"] == "starved" else 60
        t = self.target(op)
        keep = t.copy()
        v0, phi0, e0 = self.start(p, k)
        if op["spin"] == 0:
            v0 = np.hstack([self.start(s, k)[0] for s in range(self.pol)])
        starts = [a.copy() for a in (v0, phi0, e0)]
        bad = []
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                flag, info = self.inv.invert(t, v0, phi0, e0, p)
        except Exception as err:
            got, flag, info = "refusal", None, repr(err)[:120]
        else:
            got, bad = self.outcome(step, flag, info)
        if not np.array_equal(t, keep, equal_nan=True):
            bad.append("the requested density was modified")
        if not all(np.array_equal(a, b) for a, b in zip(starts, (v0, phi0, e0))):
            bad.append("the starting point was modified")
        return got, info, bad

    def outcome(self, step, flag, info):
        bad, c = [], self.c
        limit = self.inv.optInv.max_iter_invert
        if c["meth"] == "orbitalinvert":
            good, infos = [bool(flag)], [np.ravel(info)[0]]
        else:
            good = [bool(f > 0) for f in np.ravel(np.asarray(flag, dtype=object)) if f is not None]
            infos = [i for i in np.ravel(np.asarray(info, dtype=object)) if i is not None]
        if len(set(good)) != 1:
            bad.append("mixed report %s" % np.ravel(flag))
        for i in infos:
            if not 1 <= i.nfev <= limit:
                bad.append("%s iterations at a limit of %d" % (i.nfev, limit))
        for f, i, opt, nfev in self.kept:
            if i.nfev != nfev or not np.array_equal(np.asarray(i.optimality), opt, equal_nan=True):
                bad.append("an earlier report was overwritten")
        self.kept += [(good[0], i, np.array(i.optimality, dtype=float).copy(), i.nfev) for i in infos]
        if all(good):
            for p in step["meant"]:
                n = self.lowest(self.inv.vs[:, p - 1], p - 1)[0]
                t = self.n[:, p - 1] * (1.5 if step["op"]["what"] == "wrong" else 1)
                if not np.max(np.abs(n - t) / t) < 1e-6:
                    bad.append("success reported, but the potential's density is off by %g" % np.max(np.abs(n - t) / t))
        return ("success" if all(good) else "failure"), bad

    def lowest(self, v, p):
        """density and highest occupied level of the potential's lowest orbitals"""
        g, n, tops = self.g, 0, []
        for r in range(self.rows):
            e, u = eigh(self.kin[r] + np.diag(g.w * v), np.diag(g.w))
            for k in range(self.c["nocc"][r][p]):
                n = n + self.occ(r, p, k) * u[:, k] ** 2 / g.integrate(u[:, k] ** 2)
                tops.append(e[k])
        return n, max(tops)

    def state(self, step, cmp):
        """the potentials of the spins inverted so far"""
        for p in step["good"]:
            p -= 1
            vs, us = self.inv.vs[:, p], self.inv.us[0, p]
            cmp("inverted potential of spin %d against its highest level" % (p + 1), us - vs, self.vt[:, p], 3e-5)
            cmp("reported level of spin %d" % (p + 1), us, self.lowest(vs, p)[1], 3e-5)
            if not (self.c["ess"] and p == 1):
                m = sum(np.ravel(self.solver[r, p].n) for r in range(self.rows))
                cmp("density left in the solvers of spin %d" % (p + 1), m, self.n[:, p], 1e-5)


def tag(case):
    return "%s %s pol=%d electrons/4=%s sym=%s ess=%s: %s" % (
        case["meth"], case["fam"], case["pol"], case["n4"], case["sym"], case["ess"],
        ",".join("%s %d" % (s["op"]["what"], s["op"]["spin"]) for s in case["steps"]))


def replay(case, each, seed=0):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    s = Session(case, seed)
    bad = []
    for k, step in enumerate(case["steps"]):
        where = "%s, step %d" % (tag(case), k + 1)
        got, info, b = s.do(step, k)
        bad += ["%s (%s)" % (x, where) for x in b]
        if got not in step["may"]:
            bad.append("%s where only %s may follow: %s (%s)" % (
                got, "/".join(step["may"]), info if got == "refusal" else "", where))
            break
        cmp = Cmp(where)
        each(s, step, cmp)
        bad += cmp.bad
    return bad
