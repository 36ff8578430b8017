"""C34: the energy is a function whose slopes are levels and moments of the density (spec/StateFunction.tla)."""
import contextlib
import io
import json
import warnings
import numpy as np
from c32 import f, num

GRIDS = {"quick": (7, (3, 4))}
# what these grids resolve, relative to the change (the largest error seen is 4e-4)
TOL = {"quick": 1e-3}
_G, _R = {}, {}


def grid(a, which):
    if (a, which) not in _G:
        from CADMium import Psgrid
        NP, NM = GRIDS[which]
        g = Psgrid(NP, list(NM), a, np.arccosh(8. / a), np.arange(-4, 5))
        g.initialize()
        _G[a, which] = g
    return _G[a, which]


def mat(m):
    return [[num(x) if isinstance(x, list) else x for x in row] for row in m]


def solve(g, y, nd):
    """the calculation at a point: energy with the field's, electrons, solvers of the fragments, and whether it converged"""
    from CADMium import Kohnsham, Partition
    opt = {"interaction_type": y["int"], "fractional": True}
    if y["xc"] == "gga":
        opt.update(xc_family="gga", xfunc_id=101, cfunc_id=101)
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        if y["kind"] == "ks":
            k = Kohnsham(g, num(nd["za"]), num(nd["zb"]), y["pol"], mat(nd["nmo"][0]), mat(nd["n"][0]), {**opt, "sym": y["sym"]})
            z = g.a * np.cosh(g.Xr) * np.cos(g.Xa)
            k.vext = np.stack([f(nd["fields"][j]) * z for j in range(y["pol"])], axis=1)
            k.scf({"disp": False, "maxiter": 400, "e_tol": 1e-10, "alpha": 0.5})
            out = k.E.E + k.E.Vext, k.n, [k.solver]
        else:
            def side(i):
                half = len(nd["n"]) // 2
                nmo, n = [mat(x) for x in nd["nmo"]], [mat(x) for x in nd["n"]]
                s = slice(i * half, (i + 1) * half)
                return (nmo[s], n[s]) if half == 2 else (nmo[i], n[i])
            nu = [q / 8 for q in y["nu"]] or [1, 1]
            k = Partition(g, num(nd["za"]), num(nd["zb"]), y["pol"], *side(0), nu[0], *side(1), nu[1],
                          {**opt, "kinetic_part_type": "none", "hxc_part_type": y["hxc"], "ens_spin_sym": y["ess"]})
            k.scf({"disp": False, "max_iter": 400, "e_tol": 1e-8, "alpha": [0.5, 0.5], "calc_type": "sdft",
                   "iterative": False, "isolated": False})
            frags = [k.KSa, k.KSb] if not y["nu"] else [k.KSa, k.KSA, k.KSb, k.KSB]
            out = k.E.E, k.nf, [x.solver for x in frags]
        return out + (not any("ax number" in str(x.message) or "aximum" in str(x.message) for x in w),)


def point(g, y, nd, key):
    if key not in _R:
        if len(_R) > 20:
            _R.clear()
        E, n, solvers, good = solve(g, y, nd)
        _R[key] = (float(np.ravel(E)[0]), np.array(n, float), [[[np.array(s.eig, float) for s in row] for row in np.asarray(k, dtype=object)] for k in solvers], good)
    return _R[key]


def slope(g, s, n, eigs):
    from CADMium.common.coulomb import coulomb
    w = s["which"]
    if s["what"] == "nucleus":
        v = g.integrate(np.sum(n, axis=1) * np.ravel(coulomb(g, 1, 0) if w[0] == 1 else coulomb(g, 0, 1)))
    elif s["what"] == "field":
        v = g.integrate(n[:, w[0] - 1] * g.a * np.cosh(g.Xr) * np.cos(g.Xa))
    else:
        k, m, j, i = w
        v = eigs[k - 1][m][j - 1][i - 1]
    return f(s["times"]) * v + f(s["plus"])


def name(along, nd):
    return ", ".join({"nucleus": "charge %s", "field": "field on spin %s", "level": "electrons %s"}[s["what"]] % s["which"] for s in nd["slopes"])


def drive(case):
    y, which = case["sys"], case["grid"]
    g = grid(f(y["a"]), which)
    total, parts, E = 0., [], []
    for nd in case["nodes"]:
        key = json.dumps([y["name"], which, {k: v for k, v in nd.items() if k not in ("slopes", "weight")}], sort_keys=True)
        e, n, eigs, good = point(g, y, nd, key)
        if not good:
            return ["%s along %s: not converged" % (y["name"], name(case, nd))]
        E.append(e)
        d = sum(slope(g, s, n, eigs) for s in nd["slopes"])
        parts.append(d)
        total += f(nd["weight"]) * d
    h = sum(f(nd["weight"]) for nd in case["nodes"])
    change, size = E[2] - E[0], abs(h) * max(0.1, max(abs(x) for x in parts))
    if case.get("show"):
        print(y["name"], name(case, nd), change, total, abs(change - total) / size, flush=True)
    if not abs(change - total) <= TOL[which] * size:
        return ["%s along %s from za=%s zb=%s n=%s: the energy changes by %.9g, its slopes add up to %.9g" % (
            y["name"], name(case, nd), num(case["nodes"][0]["za"]), num(case["nodes"][0]["zb"]), [mat(x) for x in case["nodes"][0]["n"]], change, total)]
    return []


QUICK = (("HeH", 1), ("HeH spins", 1), ("HeH gga spins", 1), ("Be2 pi", 1), ("H2", 1), ("LiHe free", 1), ("overlap_hxc", 1), ("spin ensemble", 1), ("ensemble overlap", 1))


def edges(ctx, names, which):
    got = {}
    for d in sorted({d for n, d in names}):
        wanted = "{" + ", ".join('"%s"' % n for n, x in names if x == d) + "}"
        for c in ctx.tlc("StateFunction", constants={"Names": wanted, "Steps": str(d)}, timeout=600, workers=4):
            c["grid"] = which
            got[json.dumps(c, sort_keys=True)] = c
    out = [got[k] for k in sorted(got)]
    out.sort(key=lambda c: (c["sys"]["kind"] == "ks", c["sys"]["pol"] * -c["sys"]["rows"]))
    return out


def check(ctx):
    cases = edges(ctx, QUICK, "quick")
    ctx.run_cases(drive, cases, timeout=600)
