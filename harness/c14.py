"""C14: the Kohn-Sham self-consistency loop (spec/KSScf.tla)."""
import contextlib
import io
import json
import warnings
import numpy as np
import loopctl
from lattice import Cmp, arr, dens, grid, level, make_ks, q


def options(o, i):
    """an option dictionary saying the same as the specification's record"""
    d = {"alpha": q(o["alpha"]), "e_tol": q(o["etol"]), "maxiter": o["maxiter"], "iterative": o["iter"],
         "continuing": o["cont"], "spinflipsym": o["flip"], "auto_tol": o["auto"],
         "auto_tol_iter": o["autoiter"], "disp": bool(i % 2)}
    defaults = {"iterative": True, "continuing": False, "spinflipsym": False, "auto_tol": False,
                "auto_tol_iter": 3, "alpha": 0.5}
    for k, v in defaults.items():
        if d[k] == v and i % 3 == 0:
            del d[k]                       # defaults may be left out
    return d


def expect(ks, case, tag):
    g, W = grid(True)
    c, cmp = case["c"], Cmp(tag)
    cmp("density", ks.n, dens(case["n"], W))
    cmp("veff", ks.veff, arr(case["veff"]))
    cmp("vhxc", ks.vhxc, arr(case["vhxc"]))
    for i in range(len(c["nmo"])):
        for j in range(c["pol"]):
            cmp("potential of solver (%d,%d)" % (i, j), np.ravel(ks.solver[i, j].veff), arr(case["veff"])[:, j])
            if c["nmo"][i][j]:
                cmp("levels of solver (%d,%d)" % (i, j), ks.solver[i, j].eig, [q(o["e"]) for o in case["orbs"][i][j]])
    if any(d["cyc"] for d in case["done"]):
        en = case["en"]
        for k in ["Ts", "Enuc", "Vext", "Et", "E"] + (["Eh", "Ex", "Ec", "Vhxc"] if c["type"] == "dft" else []):
            cmp("E." + k, getattr(ks.E, k), q(en[k]))
        cmp("E.Eks", ks.E.Eks, [q(x) for x in en["Eks"]])
        cmp("chemical potential", ks.u, level(case["mu"]))
    return cmp.bad


def drive(group):
    warnings.simplefilter("ignore")
    cases = group["variants"]
    case = cases[0]
    g, W = grid(True)
    ks = make_ks(case["c"], case["hmat"], g, W)
    if case["ext"]:
        ks.vext = arr(case["ext"])
    given = None if ks.vext is None else ks.vext.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for i, o in enumerate(case["runs"]):
            before = None if ks.n is None else ks.n
            keep = None if before is None else before.copy()
            ks.scf(options(o, group["i"] + i))
            if before is not None and not np.array_equal(before, keep):
                return ["the loop overwrote the caller's density in place"]
    tag = "%s pol=%d sym=%s Nmo=%s N4=%s runs=%s" % (
        case["c"]["type"], case["c"]["pol"], case["c"]["sym"], case["c"]["nmo"], case["c"]["n4"],
        [{k: v for k, v in o.items() if k != "tag"} for o in case["runs"]])
    bad = None
    for v in cases:
        b = expect(ks, v, tag)
        if not b:
            bad = []
            break
        bad = b if bad is None or len(b) < len(bad) else bad
    if given is not None and not np.array_equal(given, ks.vext):
        bad.append("the external field changed (%s)" % tag)
    return bad[:4]


def groups(cases):
    d = {}
    for k in cases:
        d.setdefault(json.dumps([k["c"], k["ext"], k["runs"]], sort_keys=True), []).append(k)
    out = []
    for i, v in enumerate(d.values()):
        out.append({"i": i, "variants": v})
    return out


def check(ctx):
    cases = ctx.tlc("KSScf", timeout=800, workers=8)
    # a history is judged only if both readings of the limit are free of ties
    gs = [x for x in groups(cases) if len(x["variants"]) == 2]
    ctx.run_cases(drive, gs)
    loopctl.run(ctx, loopctl.drive_ks)
