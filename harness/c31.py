"""C31: a partition with exact non-additive terms reproduces the molecule (spec/Embedding.tla)."""
import contextlib
import io
import warnings
import numpy as np

# longest first
QUICK = ["He2 pi", "H2 antiferro", "He2 polarized", "He2 unequal", "He2", "H2 unequal", "H2 half filled", "H2 ensemble", "He2 ensemble", "H2 spins wuyang",
         "He2 gga", "He2 far", "H2 spins", "H2 half filled mirror", "H2 spins mirrored", "H2 stretched"]
MORE = ["H2 three quarters", "LiH", "Be2", "LiH half filled", "He2 near", "H2 both wuyang"]


def f(q):
    return q[0] / q[1]


def num(q):
    return q[0] if q[1] == 1 else q[0] / q[1]


def mat(m):
    return [[num(x) if isinstance(x, list) else x for x in row] for row in m]


def get(o, name):
    for part in name.split("."):
        o = getattr(o, part)
    return np.array(o, dtype=float)


def drive(case):
    from CADMium import Psgrid, Kohnsham, Partition, Inverter, Pssolver
    y, m = case["sys"], case["mol"]
    bad = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        a = f(y["a"])
        g = Psgrid(4, [4, 4], a, np.arccosh(y["box"] / a), np.arange(-4, 5))
        g.initialize()
        opt = {"fractional": y["frac"]}
        if y["gga"]:
            opt.update(xc_family="gga", xfunc_id=101, cfunc_id=101)

        def side(ms):
            nmo, n = [mat(k["nmo"]) for k in ms], [mat(k["n"]) for k in ms]
            return (nmo, n) if len(ms) == 2 else (nmo[0], n[0])
        p = Partition(g, y["za"], y["zb"], y["pol"], *side(y["A"]), num(y["nua"]), *side(y["B"]), num(y["nub"]),
                      {**opt, "kinetic_part_type": "inversion", "ab_sym": y["ab"], "ens_spin_sym": y["ens"]})
        s = Pssolver(g, mat(m["nmo"]), mat(m["n"]), {"tol_orbital": 1e-9, "fractional": y["frac"]})
        inv = {"disp": False, "ab_sym": y["ab"], "ens_spin_sym": y["ens"], "invert_type": y["method"]}
        if y["method"] == "wuyang":
            inv.update(tol_invert=1e-6, res_factor=0, tol_lin_solver=1e-3)
        p.inverter = Inverter(g, s, inv)
        p.scf({"disp": False, "e_tol": 1e-7, "isolated": True})
        alone = p.E.E
        al = f(y["alpha"])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                p.scf({"disp": False, "alpha": [al, al], "max_iter": 200, "e_tol": 1e-8, "continuing": True,
                       "iterative": False, "isolated": False})
            except SystemExit as e:
                return ["%s: the run stopped: %s" % (case["name"], e)]
        if any("Max number" in str(x.message) for x in w):
            bad.append("%s: not converged in 200 cycles" % case["name"])
        k = Kohnsham(g, y["za"], y["zb"], y["pol"], mat(m["nmo"]), mat(m["n"]), {**opt, "sym": y["ab"]})
        k.scf({"disp": False, "e_tol": 1e-10, "maxiter": 400})
        nel = float(np.sum(g.integrate(np.sum(k.n, axis=1))))
        for obs, src, kind in case["table"]:
            want, got = get(k, obs), 0
            for x in src:
                got = got + get(p, x)
            if kind == "density":
                d = float(g.integrate(np.sum(np.abs(got - want), axis=1)))
                ok, got, want = d <= 2e-6 * nel, d, 0.
            elif kind == "potential":       # up to a constant, where there are electrons
                d = got - want
                c = [float(g.integrate(k.n[:, j] * d[:, j]) / g.integrate(k.n[:, j])) for j in range(d.shape[1])]
                d = float(g.integrate(np.sum(k.n * np.abs(d - c), axis=1)))
                lv = max(abs(np.ravel(p.inverter.us)[j] - c[j] - k.u) for j in range(len(c))) \
                    if y["pol"] == 1 or y["ens"] else 0.
                ok, got, want = d <= 1e-4 * nel and lv <= 1e-4, [d, lv], 0.
            else:
                ok = got.size == 1 and abs(float(got) - float(want)) <= (1e-6 if kind == "energy" else 1e-5) * max(1, abs(float(want)))
            if not ok:
                bad.append("%s: %s of the molecule is %s, the partition's %s give %s" % (case["name"], obs, want, "+".join(src), got))
        if abs(alone - float(k.E.E)) < 1e-3:
            bad.append("%s: no interaction between the fragments" % case["name"])
    return bad


def check(ctx):
    names = QUICK + (MORE if ctx.thorough else [])
    cases = ctx.tlc("Embedding", constants={"Wanted": "{" + ", ".join('"%s"' % n for n in names) + "}"}, timeout=600, workers=4)
    cases = sorted(cases, key=lambda c: (MORE + QUICK).index(c["name"]))
    ctx.run_cases(drive, cases, timeout=800)
