"""Step-by-step partition calculations (spec/PartOps.tla): C17, C19..C22."""
import warnings
from types import SimpleNamespace
import numpy as np
from lattice import Cmp, arr, dens, grid, level, q
from plattice import frags, make


def build(p, extra=None, case=None):
    which = False
    if p["kin"] == "vonweiz":
        which = ("weiz", tuple(case["wsq"]), tuple(tuple(r) for r in case["lmat"]))
    g, W = grid(which)
    opt = {"interaction_type": p["type"], "sym": p["sym"], "ab_sym": p["absym"], "ens_spin_sym": p["ess"],
           "kinetic_part_type": p["kin"], "hxc_part_type": p["hxc"], "ke_func_id": 9004}
    opt.update(extra or {})
    mem = p["mem"]
    nu = [q((p["nu"][0], 8)), q((p["nu"][1], 8))]
    part = make(p["pol"], p["za"], p["zb"], [[m["nmo"] for m in s] for s in mem],
                [[m["n4"] for m in s] for s in mem], nu, opt, p["nuc"], uniform=which)
    if p["sym"]:
        for k in frags(part):
            k.vnuc = 0.5 * (k.vnuc + g.mirror(k.vnuc))
    return part


def leaders(p, part):
    f = frags(part)
    return f[:len(f) // 2] if p["absym"] else f


def orbitals(k):
    for s in np.asarray(k.solver, dtype=object).ravel():
        s.calc_orbitals()
        s.calc_density()


def tag(case):
    p = case["p"]
    return "%s pol=%d sym=%s ab_sym=%s ens_spin_sym=%s kin=%s hxc=%s nu=%s steps=%s" % (
        p["type"], p["pol"], p["sym"], p["absym"], p["ess"], p["kin"], p["hxc"], p["nu"], ",".join(case["prog"]))


class ScriptedInverter:
    """the inverter of the specification: potential 3 n + s and chemical potential 7 s for the
    s-th column's density n, kinetic energy sum(n), kinetic energy density 5 n"""

    def __init__(self, part, W):
        self.part, self.W = part, W
        n, pol = part.grid.Nelem, part.pol
        self.solver = np.empty((1, pol), dtype=object)
        for s in range(pol):
            self.solver[0, s] = "solver %d" % s
        self.vs, self.us = np.zeros((n, pol)), np.zeros((1, pol))
        self.bad, self.asked = [], []

    def invert(self, n0, vs0, phi0=None, e0=None, ispin=0, Qi=None):
        t = np.ravel(n0) * self.W
        for got, want, what in ((vs0, 11.0, "potential"), (phi0, 12.0, "orbitals"), (e0, 13.0, "levels")):
            if not np.all(np.asarray(got) == want + ispin):
                self.bad.append("the inverter did not get the initial guess's %s" % what)
        self.vs[:, ispin] = 3 * t + ispin + 1
        self.us[0, ispin] = 7.0 * (ispin + 1)
        info = np.empty((1, 1), dtype=object)
        info[0, 0] = SimpleNamespace(nfev=3, optimality=1e-9, spin=ispin)
        self.asked.append(ispin)
        return True, info

    def get_vt(self):
        return self.us - self.vs

    def columns(self):
        return [(self.vs[:, s] - int(self.solver[0, s][-1]) - 1) / 3 for s in range(self.part.pol)]

    def get_Ts(self):
        return sum(float(c.sum()) for c in self.columns())

    def get_ts_WFI(self):
        return np.stack([5 * c / self.W for c in self.columns()], axis=1)


def script_inverter(part, p, W):
    part.inverter = ScriptedInverter(part, W)
    n = part.grid.Nelem
    part.initialguessinvert = lambda ispin=0: (np.full((n, 2), 12.0 + ispin), np.full((2, 1), 13.0 + ispin),
                                               np.full((n, 1), 11.0 + ispin))


def execute(case):
    warnings.simplefilter("ignore")
    p = case["p"]
    part = build(p, case=case)
    g = part.grid
    W = np.array([g.integrate(e) for e in np.eye(g.Nelem)])
    if p["kin"] == "inversion":
        script_inverter(part, p, W)
    ks = leaders(p, part)
    n = None
    for op in case["prog"]:
        if op.startswith("load"):
            n = [dens(f, W) for f in case["given"][int(op[-1]) - 1]]
            for k, x in zip(ks, n):
                k.n = x.copy()
        elif op == "solve":
            for k, x in zip(ks, case["ext"]):
                k.vext, k.vhxc = arr(x), np.zeros((g.Nelem, p["pol"]))
                k.calc_hxc_potential()
                k.set_effective_potential()
                orbitals(k)
                k.calc_chempot()
        elif op == "fenergy":
            for k in ks:
                k.energy()
        elif op == "mirror":
            part.mirrorAB()
        elif op == "proto":
            part.calc_protomolecule()
        elif op == "q":
            part.calc_Q()
        elif op == "vp":
            part.returned = part.partition_potential()
        elif op in ("energy", "isoenergy"):
            part.optPartition.isolated = op == "isoenergy"
            part.energy()
    for k, x in zip(ks, n):
        if not np.array_equal(k.n, x):
            part.touched = True
    return part


def field(cmp, name, got, want, pol):
    """a total field, however many equal columns it is stored in"""
    got = np.asarray(got, dtype=float)
    w = np.array([q(x) for x in want])
    if got.ndim == 2:
        for j in range(got.shape[1]):
            cmp(name, got[:, j], w)
    else:
        cmp(name, got, w)


NAMES = ["KSa", "KSA", "KSb", "KSB"]


def names(case):
    return NAMES if len(case["scale"]) == 4 else ["KSa", "KSb"]


def overlap(case):
    from scipy.special import erf
    s = q((case["pe"] or case["vp"])["s"])
    return s, erf(2 * s), 4 / np.sqrt(np.pi) * np.exp(-4 * s * s)


def abc(x, F, G, a="ha", b="hb", c="hc"):
    return arr(x[a]) + F * arr(x[b]) + G * arr(x[c])


def part_shares(case, part, cmp):
    g, W = grid()
    for k, name, s in zip(frags(part), names(case), case["scale"]):
        cmp(name + ".scale", k.scale, q(s))
    for a in ("na", "nb", "nf"):
        cmp(a, getattr(part, {"na": "na_frac", "nb": "nb_frac", "nf": "nf"}[a]), dens(case[a], W))
    for k, name, x in zip(frags(part), names(case), case["q"]):
        cmp(name + ".Q", k.Q, arr(x))


def part_energies(case, part, cmp):
    pe, e = case["pe"], case["pe"]["e"]
    F = overlap(case)[1]
    over = F * q(e["over"])
    for k in ["Ea", "Eb", "Ef", "Tsf", "Enucf", "Exf", "Ecf", "Ehf", "Ep_pot", "Ep_kin", "Vnn"]:
        cmp("E." + k, getattr(part.E, k), q(e[k]))
    for k in ["Ep_hxc", "Ep", "Et", "E"]:
        cmp("E." + k, getattr(part.E, k), q(e[k]) + over)
    cmp("E.Eksf", part.E.Eksf, [q(x) for x in pe["Eksf"]])
    cmp("E.Vhxcf", part.E.Vhxcf, q(pe["Vhxcf"]))
    fr = case["en"]
    half = len(fr) // 2
    for side, fs in (("evals_a", fr[:half]), ("evals_b", fr[half:])):
        cmp("E." + side, getattr(part.E, side), [level(x) for f in fs for r in f["evals"] for s in r for x in s])


def part_potential(case, part, cmp):
    vp = case["vp"]
    F, G = vp_overlap(case)[1:]
    for k, a in (("vp_pot", "pot"), ("vp_kin", "kin"), ("vp_h", "h"), ("vp_x", "x"), ("vp_c", "c")):
        cmp("V." + k, getattr(part.V, k), arr(vp[a]))
    cmp("V.vp_hxc", part.V.vp_hxc, abc(vp, F, G))
    want = arr(vp["pot"]) + arr(vp["kin"]) + abc(vp, F, G)
    cmp("V.vp", part.V.vp, want)
    cmp("the potential returned", part.returned, want)
    for k, name, f in zip(frags(part), names(case), vp["frag"]):
        cmp(name + ".V.vp_pot", k.V.vp_pot, arr(f["pot"]))
        cmp(name + ".V.vp", k.V.vp, arr(f["pot"]) + arr(f["kin"]) + abc(f, F, G))


def part_kinetic(case, part, cmp):
    if case["vp"]:
        for k, name, f in zip(frags(part), names(case), case["vp"]["frag"]):
            cmp(name + ".V.vp_kin", k.V.vp_kin, arr(f["kin"]))
        cmp("V.vp_kin", part.V.vp_kin, arr(case["vp"]["kin"]))
    if case["p"]["kin"] == "inversion":
        cmp.bad += part.inverter.bad[:1]
    if case["p"]["kin"] == "inversion" and case["vp"]:
        p = case["p"]
        told = [i.spin for i in np.ravel(part.inversion_info)]
        spins = list(range(1 if p["ess"] else p["pol"]))
        if sorted(set(told)) != spins or len(told) != len(spins):
            cmp.bad.append("reports of the inversions of spins %s, expected %s (%s)" % (told, spins, cmp.tag))
    if case["pe"]:
        cmp("E.Ep_kin", part.E.Ep_kin, q(case["pe"]["e"]["Ep_kin"]))
        field(cmp, "V.ep_kin", part.V.ep_kin, case["pe"]["fk"], case["p"]["pol"])


def part_hxc(case, part, cmp):
    S, F, G = overlap(case)
    vp, pe, dft = case["vp"], case["pe"], case["p"]["type"] == "dft"
    for k, a in (("vp_h", "h"), ("vp_x", "x"), ("vp_c", "c")):
        cmp("V." + k, getattr(part.V, k), arr(vp[a]))
        for f, name, x in zip(frags(part), names(case), vp["frag"]):
            cmp(name + ".V." + k, getattr(f.V, k), arr(x[a]))
    for f, name, x in zip(frags(part), names(case), vp["frag"]):
        cmp(name + ".V.vp_hxc", f.V.vp_hxc, abc(x, *vp_overlap(case)[1:]))
    for k, a in (("Ep_h", "h"), ("Ep_x", "x"), ("Ep_c", "c")):
        cmp("E." + k, getattr(part.E, k), q(pe["e"][a]))
    cmp("E.Ep_hxc", part.E.Ep_hxc, q(pe["e"]["Ep_hxc"]) + F * q(pe["e"]["over"]))
    if dft:
        for k, a in (("ep_h", "fh"), ("ep_x", "fx"), ("ep_c", "fc")):
            field(cmp, "V." + k, getattr(part.V, k), pe[a], case["p"]["pol"])
    if case["p"]["hxc"].startswith("overlap"):
        cmp("E.S", part.E.S, S)
        cmp("E.F", part.E.F, F)
        for f, name, x in zip(frags(part), names(case), pe["dsdn"]):
            cmp(name + ".V.dSdn", f.V.dSdn, arr(x))
            cmp(name + ".V.dFdn", f.V.dFdn, G * arr(x))
    if case["p"]["hxc"] == "overlap_hxc":
        cmp("E.Ehcor", part.E.Ehcor, q(pe["ehcor"]))


def vp_overlap(case):
    from scipy.special import erf
    s = q(case["vp"]["s"])
    return s, erf(2 * s), 4 / np.sqrt(np.pi) * np.exp(-4 * s * s)


def run(case, *whats):
    part = execute(case)
    cmp = Cmp(tag(case))
    if getattr(part, "touched", False):
        cmp.bad.append("a fragment density changed (%s)" % cmp.tag)
    for w in whats:
        w(case, part, cmp)
    return cmp.bad[:4]
