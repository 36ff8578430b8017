"""C28: the starting point of a promolecule's inversion (spec/InitGuess.tla)."""
import warnings
from types import SimpleNamespace
import numpy as np
from lattice import arr, q
from invops import grid


class Recorder:
    """stands in for the inverter: takes what it is asked"""

    def __init__(self, solver, case):
        self.solver, self.asked = solver, []
        self.optInv = SimpleNamespace(ab_sym=case["sym"], ens_spin_sym=case["ess"], avoid_loop=False)
        self.vs, self.us = np.zeros((6, case["pol"])), np.zeros((1, case["pol"]))

    def invert(self, n0, vs0, phi0=(), e0=(), ispin=0, Qi=()):
        self.asked.append((np.array(n0), np.array(vs0), np.array(phi0), np.array(e0), ispin))
        info = np.empty((1, 1), dtype=object)
        info[0, 0] = SimpleNamespace(nfev=1, optimality=0.0, success=True)
        return True, info

    def get_vt(self):
        return np.ones((6, 1)) * self.us - self.vs


def tag(case):
    return "pol=%d sym=%s ess=%s orbitals %s of the molecule's %s" % (
        case["pol"], case["sym"], case["ess"],
        [[[len(r) for r in s["rows"]] for s in f] for f in case["frag"]],
        [[r["held"] for r in o["rows"]] for o in case["out"]])


class Setup:
    def __init__(self, case, seed):
        from CADMium import Partition, Pssolver
        self.c = case
        self.g, _ = grid(case)
        pol, frag = case["pol"], case["frag"]
        self.rng = rng = np.random.default_rng([seed, case["i"]])
        nmo = [np.array([[len(f[s]["rows"][r]) for s in range(pol)] for r in range(len(f[0]["rows"]))]) for f in frag]
        size = lambda k: nmo[k].tolist()
        if case["sym"]:
            nmo = [x for x in nmo for _ in (0, 1)]                # B as A
        ens = len(nmo) == 4
        one = lambda k: [size(k), size(k)] if not ens else [[size(k), size(k + 2)]] * 2
        a, b = one(0), one(1)
        nu = 0.5 if ens else 1.0
        part = Partition(self.g, 1, 1, pol, a[0], a[0], nu, b[0], b[0], nu,
                         {"kinetic_part_type": "inversion", "ab_sym": case["sym"], "ens_spin_sym": case["ess"],
                          "interaction_type": "ni"})
        self.part = part
        self.KS = [part.KSa, part.KSb] + ([part.KSA, part.KSB] if ens else [])
        self.given = []
        for k, ks in enumerate(self.KS):
            f = frag[k // 2 if case["sym"] else k]
            ks.veff = arr([f[s]["veff"] for s in range(pol)])
            ks.Q = arr([f[s]["q"] for s in range(pol)])
            if case["sym"] and k % 2:
                ks.veff, ks.Q = (self.g.mirror(x) for x in (ks.veff, ks.Q))
            ks.u = 0.0
            for s in range(pol):
                for r, orbs in enumerate(f[s]["rows"]):
                    sol = ks.solver[r, s]
                    sol.hamiltonian()
                    if orbs:
                        p = np.array(orbs, dtype=float).T * rng.uniform(0.3, 2, len(orbs)) * rng.choice([-1, 1], len(orbs))
                        sol.phi = self.g.mirror(p) if case["sym"] and k % 2 else p
                        self.given.append((sol, sol.phi.copy()))
        spins = [case["out"][0] if case["ess"] else o for o in (case["out"] * 2)[:pol]]
        held = [[o["rows"][r]["held"] for o in spins] for r in range(len(case["out"][0]["rows"]))]
        if case["i"] % 2 and held and not any(held[-1]):
            held.pop()                                            # nothing held is as good as no such row
        part.inverter = Recorder(Pssolver(self.g, held, held, {}), case)
        part.nf = rng.uniform(0.1, 1, (6, pol))

    def compare(self, got, s, bad, where):
        phi, e, v = got
        o = self.c["out"][s]
        g = self.g
        if np.shape(v) != (6, 1) or not np.allclose(np.ravel(v), arr([o["v0"]])[:, 0], atol=1e-10):
            bad.append("potential %s instead of %s (%s)" % (np.ravel(v), arr([o["v0"]])[:, 0], where))
            return
        want, lev = [], []
        for r in o["rows"]:
            for x, l in zip(r["x"], r["e"]):
                x = np.array(x, dtype=float)
                want.append(x * (r["norm"] / g.integrate(x * x)) ** 0.5)
                lev.append(q(l))
        want = np.array(want).T
        if np.shape(phi) != want.shape:
            bad.append("%s orbitals instead of %s (%s)" % (np.shape(phi), want.shape, where))
            return
        if np.iscomplexobj(phi) and np.any(np.imag(phi)):
            bad.append("complex orbitals (%s)" % where)
        e = np.ravel(e)
        if e.shape != (len(lev),) or not np.allclose(e, lev, atol=1e-9):
            bad.append("levels %s instead of %s (%s)" % (e, lev, where))
        #within states of the same level any independent choice will do
        k = 0
        for r in o["rows"]:
            own = [q(l) for l in r["e"]]
            for l in sorted(set(own)):
                m = own.count(l)
                x = want[:, k:k + m] * g.w[:, None] ** 0.5
                y = np.real(phi[:, k:k + m]) * g.w[:, None] ** 0.5
                size = (x.T @ x)[0, 0]
                if not np.allclose(np.sum(y * y, axis=0), size, atol=1e-8) or not np.allclose(x @ (x.T @ y), y * size, atol=1e-7) \
                        or np.linalg.det(y.T @ y) < 1e-6 * size ** m:
                    bad.append("orbitals %d to %d are %s instead of %s (%s)" % (
                        k + 1, k + m, phi[:, k:k + m].T.tolist(), want[:, k:k + m].T.tolist(), where))
                    return
                k += m


def drive(case):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    s = Setup(case, 1)
    bad, part, rec = [], s.part, s.part.inverter
    for k in range(len(case["out"])):
        s.compare(part.initialguessinvert(k), k, bad, "asked, spin %d %s" % (k + 1, tag(case)))
        #without an inverter nobody limits the orbitals
        if all(r["held"] == len(r["all"]) for r in case["out"][k]["rows"]):
            part.inverter = None
            s.compare(part.initialguessinvert(k), k, bad, "asked without inverter, spin %d %s" % (k + 1, tag(case)))
            part.inverter = rec
    if bad:
        return bad
    part.vp_kinetic()
    if [a[4] for a in rec.asked] != list(range(len(case["out"]))):
        return ["inverted the spins %s (%s)" % ([a[4] + 1 for a in rec.asked], tag(case))]
    for n0, v0, phi, e, k in rec.asked:
        where = "handed over, spin %d %s" % (k + 1, tag(case))
        if not np.allclose(np.ravel(n0), case["pol"] * part.nf[:, k], atol=1e-12):
            bad.append("target %s instead of %s (%s)" % (np.ravel(n0), case["pol"] * part.nf[:, k], where))
        if phi.ndim != 2 or phi.shape[1] != 1 or e.ndim != 1:
            bad.append("orbitals or levels are no columns (%s)" % where)
            continue
        s.compare((phi.reshape((6, -1), order="F"), e, v0), k, bad, where)
    for sol, p in s.given:
        if not np.array_equal(sol.phi, p):
            bad.append("a fragment's orbitals were changed (%s)" % tag(case))
            break
    return bad


def check(ctx):
    cases = ctx.tlc("InitGuess", constants={"Systems": "<- MoreGuesses"} if ctx.thorough else {}, timeout=800, workers=8)
    ctx.run_cases(drive, [dict(c, i=i) for i, c in enumerate(cases)])
