"""C27: what a partition run does about failing inversions (spec/InvWatch.tla)."""
import contextlib
import io
import re
import warnings
from types import SimpleNamespace
import numpy as np
from lattice import grid

RES = {"half": 0.5, "one": 1.0, "two": 2.0, "nan": np.nan}
KIND = {"inversion": {"kinetic_part_type": "inversion"},
        "potential": {"kinetic_part_type": "none", "vp_calc_type": "potential_inversion"},
        "both": {"kinetic_part_type": "inversion", "vp_calc_type": "potential_inversion"},
        "none": {"kinetic_part_type": "none"}}


class Watch:
    def __init__(self, case):
        from CADMium import Inverter, Partition, Pssolver
        self.c, self.s = case, case["setup"]
        self.i = case["i"]
        self.g = g = grid(True)[0]
        self.pol = pol = max(self.s["shape"][1], 1 + self.i % 2)
        self.part = Partition(g, 2, 1, pol, [[1] * pol], [[2 // pol] * pol], 1.0,
                              [[1] * pol], [[2 // pol] * pol], 1.0, dict(KIND[self.s["kind"]]))
        part = self.part
        self.flag0 = bool((self.i // 2) % 2)
        part.inverter = Inverter(g, Pssolver(g, [[2] * pol], [[4 // pol] * pol], {}), {"avoid_loop": self.flag0})
        self.rng = np.random.RandomState(self.i)
        self.asked, self.nfev, self.count = [], [], 0
        self.E, self.n = -1.0, 0.5 + self.rng.rand(g.Nelem, pol)
        self.fresh = 0
        for side, k in enumerate((part.KSa, part.KSb)):
            self.graft(k, side)
        part.energy = self.energy
        part.partition_potential = self.potential

    def graft(self, k, side):
        share = (0.75, 0.25)[side]

        def calc_density(*a, **kw):
            return share * self.n
        k.calc_density = calc_density
        k.energy = lambda *a, **kw: None
        k.calc_hxc_potential = lambda: setattr(k, "vhxc", np.zeros((self.g.Nelem, self.pol)))
        k.calc_chempot = lambda: setattr(k, "u", -1.0)

    def energy(self, *a, **k):
        p = self.part
        p.E.Ea = p.E.Eb = 0.5 * self.E
        p.E.E = self.E
        self.count += 1

    def potential(self, *a, **k):
        """one cycle's potential: the reports of this cycle and the cycle's change"""
        x = self.seen[min(self.count, len(self.seen) - 1)]
        self.asked.append(bool(self.part.inverter.optInv.avoid_loop))
        if not x["conv"]:
            self.E *= 1.5
            self.n = self.n * (1.25 if self.count % 2 else 1.0) + 0.01
        info = np.empty(tuple(self.s["shape"]), dtype=object)
        it = iter(x["res"] or ["two"] * info.size)
        for a in range(info.shape[0]):
            for b in range(info.shape[1]):
                info[a, b] = SimpleNamespace(nfev=int(self.rng.randint(1, 400)), optimality=RES[next(it)],
                                             success=True, status=1, cost=0.0)
        self.part.inversion_info = info
        self.nfev.append([i.nfev for i in info.ravel()])
        return np.zeros((self.g.Nelem, self.pol))

    def isolated(self, x):
        """nothing asks for a potential here: the script goes on with the densities"""
        p = self.part

        def zero(*a, **k):
            y = self.seen[min(self.count, len(self.seen) - 1)]
            if not y["conv"]:
                self.E *= 1.5
            p.E.Ea = p.E.Eb = 0.5 * self.E
            p.E.E = self.E
            self.count += 1
        return zero

    def call(self, r):
        c, part = self.c, self.part
        self.seen, done, iso = c["seen"][r], c["done"][r], c["iso"][r]
        self.count, self.asked, self.nfev = 0, [], []
        part.inverter.optInv.avoid_loop = self.flag0
        part.inversion_info = self.stale()
        part.energy = self.isolated(None) if iso else self.energy
        opt = {"max_iter": self.s["calls"][r]["limit"], "e_tol": 1e-3, "alpha": [1.0], "continuing": r > 0,
               "disp": bool(self.i % 3 == 0)}
        if self.s["calls"][r]["iso"] != "keep":
            opt["isolated"] = iso
        text = io.StringIO()
        stop = False
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(text):
            warnings.simplefilter("always")
            try:
                part.scf(opt)
            except SystemExit:
                stop = True
        where = "call %d of %s" % (r + 1, [[x["res"] for x in s] for s in c["seen"]])
        where = "%s %s %s" % (self.s["kind"], "isolated" if iso else "interacting", where)
        bad = []
        if stop != done["stop"]:
            bad.append("the run %s (%s)" % ("was ended although no two inversions in a row failed" if stop else
                                            "went on although two inversions in a row failed", where))
        if self.count != done["cyc"]:
            bad.append("%d cycles instead of %d (%s)" % (self.count, done["cyc"], where))
            return bad
        if not stop and any(issubclass(y.category, UserWarning) and "SCF" in str(y.message) for y in w) != done["warn"]:
            bad.append("non-convergence %sreported (%s)" % ("not " if done["warn"] else "", where))
        if iso and self.asked:
            bad.append("an isolated run asked for a partition potential (%s)" % where)
        if not iso:
            want = [{"once": True, "full": False, "keep": self.flag0}[x["flag"]] for x in self.seen]
            if self.asked != want:
                bad.append("inversions asked for a single evaluation: %s instead of %s (%s)" % (self.asked, want, where))
            if not np.allclose(part.nf, self.n, atol=1e-9):
                bad.append("the promolecule is not that of the last cycle (%s)" % where)
            if opt["disp"] and self.s["kind"] != "none":
                bad += self.progress(text.getvalue(), stop, where)
        return bad

    def stale(self):
        """reports of some earlier calculation: of no concern to this one"""
        info = np.empty(tuple(self.s["shape"]), dtype=object)
        for k in range(info.size):
            info.flat[k] = SimpleNamespace(nfev=7, optimality=50.0, success=False, status=0, cost=1.0)
        return info

    def progress(self, text, stop, where):
        """the lines shown carry the largest effort and residual of the cycle"""
        num = r"([-+]?(?:\d[\d.]*(?:e[-+]\d+)?|nan|inf))"
        lines = [re.match(r"\s*(\d+)\s+" + r"\s+".join([num] * 5) + r"\s*$", x) for x in text.splitlines()]
        lines = [x for x in lines if x]
        bad = []
        for k, x in enumerate(lines):
            if k >= len(self.nfev) or int(x[1]) != k + 1:
                return ["progress lines are not one per cycle (%s)" % where]
            if int(float(x[4])) != max(self.nfev[k]):
                bad.append("cycle %d shows %s iterations, the most were %d (%s)" % (k + 1, x[4], max(self.nfev[k]), where))
            res = [RES[a] for a in self.seen[k]["res"]]
            if not np.isnan(sum(res)) and abs(float(x[5]) - max(res)) > 2e-3 * max(res):
                bad.append("cycle %d shows residual %s, the largest was %g (%s)" % (k + 1, x[5], max(res), where))
        return bad


def drive(case):
    w = Watch(case)
    bad = []
    for r in range(len(case["done"])):
        bad += w.call(r)
        if bad:
            break
    return bad


def check(ctx):
    cases = ctx.tlc("InvWatch", constants={"Setups": "<- MoreSetups" if ctx.thorough else "<- SomeSetups"},
                    timeout=800, workers=4)
    ctx.run_cases(drive, [dict(c, i=i) for i, c in enumerate(cases)])
