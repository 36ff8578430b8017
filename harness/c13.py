"""C13: potentials and energies of a Kohn-Sham calculation (spec/KSOps.tla)."""
import warnings
import numpy as np
from lattice import Cmp, arr, dens, grid, level, make_ks, q


def drive(case):
    warnings.simplefilter("ignore")
    g, W = grid()
    c = case["c"]
    ks = make_ks(c, case["hmat"], g, W)
    cmp = Cmp("%s pol=%d sym=%s Nmo=%s N4=%s ops=%s" % (c["type"], c["pol"], c["sym"], c["nmo"], c["n4"], case["hist"]))
    nuc = arr(c["nuc"])
    n_end, nout_w = dens(case["n"], W), dens(case["nout"], W)
    n0 = dens(case["n0"], W)
    ks.n = n0.copy()
    ks.vext, ks.vhxc = arr(case["vext"]), np.zeros((g.Nelem, c["pol"]))
    for op in case["hist"]:
        if op == "hxc":
            ks.calc_hxc_potential()
            cmp("vhxc", ks.vhxc, arr(case["vhxc"]))
            if c["type"] == "dft":
                cmp("V.vx", ks.V.vx, arr(case["xv0"]))
                cmp("V.vc", ks.V.vc, arr(case["cv0"]))
                cmp("V.vh", ks.V.vh, arr(case["hv0"]))
                cmp("E.Ex", ks.E.Ex, q(case["ex0"]))
                cmp("E.Ec", ks.E.Ec, q(case["ec0"]))
        elif op == "setv":
            ks.set_effective_potential()
            cmp("veff", ks.veff, arr(case["sv"]))
        elif op == "setext":
            ks.veff = np.full_like(nuc, 77.0)
            ks.set_veff_external(arr(case["sv"]))
        if op in ("setv", "setext"):
            for i in range(len(c["nmo"])):
                for j in range(c["pol"]):
                    cmp("potential of solver (%d,%d) after %s" % (i, j, op), np.ravel(ks.solver[i, j].veff),
                        arr(case["sv"])[:, j])
        if op in ("calc", "iter-far", "iter-near"):
            kw = {"calc": {}, "iter-far": {"ITERATIVE": True, "dif": 0.5},
                  "iter-near": {"ITERATIVE": True, "dif": 1e-4}}[op]
            nout = ks.calc_density(**kw)
            cmp("density returned", nout, nout_w)
            if not np.array_equal(ks.n, n0):
                cmp.bad.append("calc_density changed the density attribute (%s)" % cmp.tag)
        if op == "take":
            ks.n = np.array(nout)
        if op == "energy":
            keep = [ks.n.copy(), ks.vext.copy(), ks.vhxc.copy()]
            ks.energy()
            ks.calc_chempot()
            if not all(np.array_equal(a, b) for a, b in zip(keep, [ks.n, ks.vext, ks.vhxc])):
                cmp.bad.append("energy() changed a density or potential (%s)" % cmp.tag)
            en = case["en"]
            names = ["Ts", "Enuc", "Vext", "Et", "Vnn", "E"]
            if c["type"] == "dft":
                names += ["Eh", "Ex", "Ec", "Vhxc"]
            for k in names:
                cmp("E." + k, getattr(ks.E, k), q(en[k]))
            cmp("E.Eks", ks.E.Eks, [q(x) for x in en["Eks"]])
            cmp("E.Vks", ks.E.Vks, [q(x) for x in en["Vks"]])
            cmp("E.evals", ks.E.evals, [level(x) for r in en["evals"] for s in r for x in s])
            cmp("chemical potential", ks.u, level(case["mu"]))
            if c["type"] == "dft":
                cmp("V.vh", ks.V.vh, arr(case["hv"]))
                cmp("V.eh", ks.V.eh, 0.5 * arr(case["hv"])[:, 0])
                cmp("V.vx", ks.V.vx, arr(case["xv"]))
                cmp("V.vc", ks.V.vc, arr(case["cv"]))
                cmp("V.ex", np.ravel(ks.V.ex), [q(x) for x in case["xe"]])
                cmp("V.ec", np.ravel(ks.V.ec), [q(x) for x in case["ce"]])
        if cmp.bad:
            break
    cmp("final density", ks.n, n_end)
    return cmp.bad


def check(ctx):
    c = {}
    cases = ctx.tlc("KSOps", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
