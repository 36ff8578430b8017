"""C09: exchange-correlation assembly (spec/XC.tla)."""
import warnings
import numpy as np
import astev
from astev import ev

GRIDS = [(2, 4, 3, 1.1, 2.6, 1), (3, 2, 3, 0.8, 3.0, 2), (2, 3, 6, 1.7, 2.1, 2)]
_G = {}
astev._F["cbrt"] = np.cbrt


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m, dtype=float)


def grid(i):
    if i not in _G:
        from CADMium import Psgrid
        np_, na, nr, a, L, h = GRIDS[i]
        g = Psgrid(np_, [na, nr], a, L, np.arange(-h, h + 1))
        g.initialize()
        g.operators()
        _G[i] = (g, {k: dense(getattr(g, k)) for k in ("grada", "gradr", "diva", "divr")},
                 np.array([g.integrate(e) for e in np.eye(g.Nelem)]))
    return _G[i]


def drive(case):
    import pylibxc
    from CADMium.libxc.libxc import Libxc
    warnings.simplefilter("ignore")
    bad = []
    pol, fid, fam = case["pol"], case["func"], case["family"]
    for i in range(len(GRIDS)):
        g, ops, W = grid(i)
        n_ = g.Nelem
        fns = {k: (lambda x, m=m: m @ np.broadcast_to(x, (n_,))) for k, m in ops.items()}
        rng = np.random.default_rng(7 * i + pol)
        dens = [rng.uniform(0.2, 1.5, (n_, pol)),
                np.exp(-np.outer(g.Xr, np.arange(1, pol + 1))) * (1.5 + np.cos(np.outer(g.Xa, np.arange(1, pol + 1)))),
                np.asfortranarray(rng.uniform(0.01, 3.0, (n_, pol)))]
        if pol == 2:
            dens.append(np.repeat(rng.uniform(0.2, 1.5, (n_, 1)), 2, axis=1))
        for di, n in enumerate(dens):
            tag = "functional %d pol=%d density %d grid %d" % (fid, pol, di, i)
            env = dict(fns)
            env.update({"n": n[:, 0], "u": n[:, 0], "d": n[:, -1]})

            def cmp(name, got, want, tol=1e-9):
                got = np.asarray(got, dtype=float)
                if got.shape != want.shape:
                    bad.append("%s has shape %s, expected %s (%s)" % (name, got.shape, want.shape, tag))
                    return
                sc = np.abs(want).max() + 1e-12
                if not np.all(np.abs(got - want) <= tol * sc):
                    k = np.unravel_index(np.nanargmax(np.abs(got - want)), want.shape) if want.shape else ()
                    bad.append("%s%s = %r, expected %r (%s)" % (name, [int(x) for x in k], got[k], want[k], tag))

            sig = np.stack([ev(e, env) for e in case["sigma"]], axis=1)
            keep = n.copy()
            cmp("sigma", g.sigma(n), sig)
            red = np.stack([ev(e, env) for e in case["reduced"]], axis=1)
            cmp("reduced gradient", g.reduced_grad(n), red)
            f = pylibxc.LibXCFunctional(fid, pol)
            inp = {"rho": n} if fam == "lda" else {"rho": n, "sigma": sig}
            out = f.compute(inp)
            env["eps"] = out["zk"][:, 0]
            for c in range(pol):
                env["vrho%d" % (c + 1)] = out["vrho"][:, c]
            if fam == "gga":
                for c in range(out["vsigma"].shape[1]):
                    env["vs%d" % (c + 1)] = out["vsigma"][:, c]
            v = np.stack([ev(e, env) for e in case["v"]], axis=1)
            exc = W @ ev(case["edens"], env)
            xc = Libxc(g, fam, fid)
            r2 = xc.get_xc(n)
            cmp("exchange-correlation energy", r2[0], np.asarray(exc))
            cmp("exchange-correlation potential", r2[1], v)
            r3 = xc.get_xc(n, return_epsilon=True)
            cmp("energy with energy density requested", r3[0], np.asarray(exc))
            cmp("energy density", np.asarray(r3[1]).reshape(-1), out["zk"][:, 0])
            cmp("potential with energy density requested", r3[2], v)
            if not np.array_equal(keep, n):
                bad.append("get_xc changed the density (%s)" % tag)
            if pol == 2 and case["symfun"]:
                rf = xc.get_xc(np.ascontiguousarray(n[:, ::-1]))
                cmp("energy with spins exchanged", rf[0], np.asarray(exc))
                cmp("potential with spins exchanged", rf[1], v[:, ::-1])
            if pol == 1 and case["symfun"]:
                r2c = xc.get_xc(np.repeat(n / 2, 2, axis=1))
                cmp("energy as two equal spin columns", r2c[0], np.asarray(exc))
                cmp("potential as two equal spin columns", r2c[1], np.repeat(v, 2, axis=1))
            if bad:
                return bad
    return bad


def drive_reject(case):
    from CADMium.libxc.libxc import Libxc
    g = grid(0)[0]
    bad = []
    if case["what"] == "family":
        try:
            Libxc(g, case["family"], 1).get_xc(np.ones((g.Nelem, case["pol"])))
            bad.append("functional family %r was not rejected" % case["family"])
        except Exception:
            pass
    else:
        try:
            g.sigma(np.ones((g.Nelem, case["cols"])))
            bad.append("gradient invariants of a %d-column density were not rejected" % case["cols"])
        except Exception:
            pass
    return bad


def check(ctx):
    c = {"KMax": 3} if ctx.thorough else {}
    cases = ctx.tlc("XC", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
    ctx.run_cases(drive_reject, [{"what": "family", "family": f, "pol": p} for f in ("mgga", "", "hyb") for p in (1, 2)]
                  + [{"what": "cols", "cols": k} for k in (3, 4)])
