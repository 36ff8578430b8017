"""When the loops stop: scripted changes of energy and density (spec/LoopControl.tla)."""
import warnings
import numpy as np
from lattice import grid, q


class Script:
    """energies and densities realising the changes of one call after another"""

    def __init__(self, case, i, g, pol):
        r = np.random.RandomState(i)
        self.pol = pol
        self.empty = pol == 2 and i % 3 == 0
        self.base = 0.5 + r.rand(g.Nelem, pol)
        if self.empty:
            self.base[:, 1] = 0.0
        self.runs = []
        E, n = -2.0 - (i % 2), self.base
        for k, seq in enumerate(case["seq"]):
            steps = []
            for c, d in enumerate(seq):
                d = q(d)
                if c:
                    by = (i + c + k) % 3
                    if by == 1:
                        n = n.copy()
                        n[:, 0] /= 1 + d
                    elif by == 2 and pol == 2 and not self.empty:
                        n = n.copy()
                        n[:, 1] /= 1 + d
                    else:
                        E = E / (1 + d)
                steps.append((E, n))
            self.runs.append(steps)

    def at(self, r, c):
        s = self.runs[r]
        return s[min(c, len(s) - 1)]


def optval(o, i, names):
    d = {names[k]: v for k, v in (("etol", q(o["etol"])), ("maxiter", o["maxiter"]),
                                  ("auto", o["auto"]), ("autoiter", o["autoiter"]))}
    if not o["auto"] and i % 2:
        del d[names["auto"]]
    return d


def say(case):
    return "calls %s changes %s" % (case["calls"], [["%.3g" % q(x) for x in s] for s in case["seq"]])


def drive_ks(case):
    warnings.simplefilter("ignore")
    from CADMium import Kohnsham
    g, _ = grid(True)
    i = case["i"]
    pol = 1 + i % 2
    al = (1.0, 0.5, 0.25)[(i // 2) % 3]
    sc = Script(case, i, g, pol)
    ks = Kohnsham(g, 2, 1, pol, [[1] * pol], [[2 // pol] * pol], {})
    st = {"r": -1, "c": 0, "fresh": True, "count": []}

    def calc_density(*a, **k):
        if st["fresh"]:
            st["fresh"] = False
            return sc.base.copy()
        t = sc.at(st["r"], st["c"])[1]
        return (t - (1 - al) * ks.n) / al

    def energy(*a, **k):
        ks.E.E = sc.at(st["r"], st["c"])[0]
        st["c"] += 1
    ks.calc_density, ks.energy = calc_density, energy
    ks.calc_hxc_potential = lambda: setattr(ks, "vhxc", np.zeros((g.Nelem, pol)))
    ks.calc_chempot = lambda: setattr(ks, "u", -1.0)
    names = {"etol": "e_tol", "maxiter": "maxiter", "auto": "auto_tol", "autoiter": "auto_tol_iter"}
    for r, o in enumerate(case["calls"]):
        st.update(r=r, c=0, fresh=r == 0)
        d = optval(o, i, names)
        d.update(disp=False, alpha=al, continuing=r > 0, iterative=bool(i % 5))
        ks.scf(d)
        st["count"].append(st["c"])
    want = [[min(x["cyc"], o["maxiter"] - 1 + s) for x, o in zip(case["done"], case["calls"])] for s in (0, 1)]
    bad = []
    if st["count"] not in want:
        bad.append("loop ran %s cycles instead of %s (%s)" % (st["count"], want[0], say(case)))
    elif st["count"][-1] and not np.allclose(ks.n, sc.at(len(case["seq"]) - 1, st["count"][-1] - 1)[1], atol=1e-9):
        bad.append("density reported is not the last iterate (%s)" % say(case))
    return bad


def drive_part(case):
    from CADMium import Partition
    g, _ = grid(True)
    i = case["i"]
    pol = 1 + i % 2
    sc = Script(case, i, g, pol)
    al = [[1.0], [0.5], [0.5, 1.0]][(i // 2) % 3]
    al2 = al * 2 if len(al) == 1 else al
    part = Partition(g, 2, 1, pol, [[1] * pol], [[2 // pol] * pol], 1.0, [[1] * pol], [[2 // pol] * pol], 1.0,
                     {"kinetic_part_type": "none"})
    st = {"r": -1, "c": 0, "e": 0}
    share = (0.75, 0.25)

    def graft(k, side):
        def calc_density(*a, **kw):
            if st["fresh"] & (1 << side):
                st["fresh"] &= ~(1 << side)
                return share[side] * sc.base
            t = share[side] * sc.at(st["r"], st["c"])[1]
            return (t - (1 - al2[side]) * k.n) / al2[side]
        k.calc_density = calc_density
        k.energy = lambda *a, **kw: None
        k.calc_hxc_potential = lambda: setattr(k, "vhxc", np.zeros((g.Nelem, pol)))
        k.calc_chempot = lambda: setattr(k, "u", -1.0)
    graft(part.KSa, 0)
    graft(part.KSb, 1)

    def energy(*a, **k):
        part.E.Ea = part.E.Eb = 0.0
        part.E.E = sc.at(st["r"], st["c"])[0]
        st["c"] += 1
    part.energy = energy
    part.partition_potential = lambda: np.zeros((g.Nelem, pol))
    names = {"etol": "e_tol", "maxiter": "max_iter", "auto": "auto_tol", "autoiter": "auto_tol_iter"}
    bad, count = [], []
    for r, (o, x) in enumerate(zip(case["calls"], case["done"])):
        st.update(r=r, c=0, fresh=3 if r == 0 else 0)
        d = optval(o, i, names)
        d.update(disp=False, alpha=al, continuing=r > 0, iterative=bool(i % 5))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            part.scf(d)
        warned = any(issubclass(y.category, UserWarning) for y in w)
        count.append(st["c"])
        if st["c"] != x["cyc"]:
            bad.append("call %d of the loop ran %d cycles instead of %d (%s)" % (r + 1, st["c"], x["cyc"], say(case)))
            return bad
        if warned != x["cut"]:
            bad.append("call %d %s although it was %sconverged (%s)" % (
                r + 1, "warned" if warned else "did not warn", "not " if x["cut"] else "", say(case)))
    if count[-1] and not np.allclose(part.nf, sc.at(len(count) - 1, count[-1] - 1)[1], atol=1e-9):
        bad.append("promolecule density is not the last iterate (%s)" % say(case))
    return bad


def run(ctx, drive):
    cases = ctx.tlc("LoopControl", constants={"Calls": "<- DeepCalls"} if ctx.thorough else {}, timeout=800, workers=4)
    ctx.run_cases(drive, [dict(c, i=i) for i, c in enumerate(cases)])
