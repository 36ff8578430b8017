"""Histories of the partition loop (spec/PartScf.tla): C23, C18."""
import contextlib
import io
import warnings
import numpy as np
from lattice import Cmp, arr, dens, grid, level, q
from plattice import frags, make
from partops import leaders

NAMES = {2: ["KSa", "KSb"], 4: ["KSa", "KSA", "KSb", "KSB"]}


def build(p):
    g, W = grid(True)
    opt = {"interaction_type": p["type"], "sym": p["sym"], "ab_sym": p["absym"], "ens_spin_sym": p["ess"],
           "kinetic_part_type": p["kin"], "hxc_part_type": p["hxc"], "ke_func_id": 9004}
    mem = p["mem"]
    part = make(p["pol"], p["za"], p["zb"], [[m["nmo"] for m in s] for s in mem],
                [[m["n4"] for m in s] for s in mem], [q((p["nu"][0], 8)), q((p["nu"][1], 8))], opt, p["nuc"], uniform=True)
    if p["sym"]:
        for k in frags(part):
            k.vnuc = 0.5 * (k.vnuc + g.mirror(k.vnuc))
    return part


def options(o, i):
    d = {"alpha": [q(x) for x in o["alpha"]], "e_tol": q(o["etol"]), "max_iter": o["maxiter"],
         "iterative": o["iter"], "continuing": o["cont"], "calc_type": o["calc"],
         "freeze_a": o["fa"], "freeze_b": o["fb"], "auto_tol": o["auto"], "auto_tol_iter": o["autoiter"],
         "disp": bool(i % 2)}
    if o["iso"] != "unset":
        d["isolated"] = o["iso"] == "yes"
    defaults = {"iterative": True, "continuing": False, "calc_type": "pdft", "freeze_a": False, "freeze_b": False,
                "auto_tol": False, "auto_tol_iter": 3}
    for k, v in defaults.items():
        if d[k] == v and i % 3 == 0:
            del d[k]                       # defaults may be left out
    return d


def tag(case):
    p = case["p"]
    return "%s pol=%d sym=%s ab_sym=%s ens_spin_sym=%s kin=%s hxc=%s nu=%s runs=%s" % (
        p["type"], p["pol"], p["sym"], p["absym"], p["ess"], p["kin"], p["hxc"], p["nu"],
        [{k: v for k, v in o.items()} for o in case["runs"]])


def execute(case):
    """runs the history; returns the partition and, per call, whether it warned of the limit"""
    part = build(case["p"])
    warned = []
    out = io.StringIO()
    for i, o in enumerate(case["runs"]):
        with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(out):
            warnings.simplefilter("always")
            part.scf(options(o, case.get("i", 0) + i))
        warned.append(any("terations" in str(w.message) for w in ws))
    return part, warned


def state(case, part, cmp):
    g, W = grid(True)
    p = case["p"]
    ks = frags(part)
    names = NAMES[len(ks)]
    lead = leaders(p, part)
    for j, (k, name) in enumerate(zip(ks, names)):
        cmp(name + ".n", k.n, dens(case["n"][j], W))
        cmp(name + ".Q", k.Q, arr(case["q"][j]))
        cmp(name + ".vext", k.vext, arr(case["vext"][j]))
        cmp(name + ".veff", k.veff, arr(case["veff"][j]))
        cmp(name + ".u", k.u, level(case["mu"][j]))
        en = case["en"][j]
        for a in ["Ts", "Enuc", "Et", "E"] + (["Eh", "Ex", "Ec"] if p["type"] == "dft" else []):
            cmp("%s.E.%s" % (name, a), getattr(k.E, a), q(en[a]))
        if k in lead:
            m = p["mem"][0 if j < len(ks) // 2 else 1][j % (len(ks) // 2)]
            for r in range(len(m["nmo"])):
                for s in range(p["pol"]):
                    cmp("%s potential of solver (%d,%d)" % (name, r, s), np.ravel(k.solver[r, s].veff), arr(case["veff"][j])[:, s])
                    if m["nmo"][r][s]:
                        cmp("%s levels of solver (%d,%d)" % (name, r, s), k.solver[r, s].eig,
                            [q(o["e"]) for o in case["orbs"][j][r][s]])
            if any(d["cyc"] for d in case["done"]):
                cmp(name + ".V.vp", k.V.vp, arr(case["fvp"][j]))
    for a, b in (("na_frac", "na"), ("nb_frac", "nb"), ("nf", "nf")):
        cmp(a, getattr(part, a), dens(case[b], W))
    if any(d["cyc"] for d in case["done"]):
        e = case["pe"]
        for a in ["Ea", "Eb", "Ef", "Tsf", "Enucf", "Ep_pot", "Ep_kin", "Ep_hxc", "Ep", "Et", "Vnn", "E"]:
            cmp("E." + a, getattr(part.E, a), q(e[a]))
        if not case["iso"]:
            cmp("V.vp", part.V.vp, arr(case["vp"]))
