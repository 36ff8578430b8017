"""C12: linear density response (spec/Response.tla)."""
import warnings
import numpy as np
from c11 import designed, grid, q


def dense(a):
    return np.asarray(a.todense() if hasattr(a, "todense") else a, dtype=float)


def drive(case):
    warnings.simplefilter("ignore")
    from CADMium import Pssolver
    g, W = grid()
    n = g.Nelem
    bad = []
    m, pol = case["m"], case["pol"]
    for extra in (0, 1):
        nmo = case["nmo"] + extra
        if nmo > 4 or (extra and case["n4"] == 0):
            continue
        N = case["n4"] / 4
        for N in ([N, int(N)] if N == int(N) else [N]):
            nm = [[nmo + 4] * pol for _ in range(m)] + [[nmo] * pol]
            Ns = [[type(N)(7)] * pol for _ in range(m)] + [[N] * pol]
            s = Pssolver(g, nm, Ns, {"fractional": case["frac"]})[m, pol - 1]
            s.H0, order = designed(g, case)
            s.e0 = -25.0
            v = np.zeros(n)
            for b in range(len(case["base"])):
                v[order[b][0]], v[order[b][1]] = case["v"][b]
            s.setveff(v)
            s.calc_orbitals()
            phi = s.phi.copy()
            s.calc_response()
            first = dense(s.chi)
            s.phi = phi * np.array([-2.5, 0.4, 3.0, -0.7])[None, :nmo]    # any normalisation
            s.calc_response()
            want = np.zeros((n, n))
            for b in range(len(case["base"])):
                for i in range(2):
                    for j in range(2):
                        want[order[b][i], order[b][j]] = q(case["chi"][b][i][j]) / W[order[b][i]]
            tag = "v=%s pol=%d m=%d N=%r levels=%d fractional=%s" % (
                case["v"], pol, m, N, nmo, case["frac"])
            tol = 1e-7 * (np.abs(want).max() + 1 / W.min() * 1e-3)
            for what, got in (("response", first), ("response with rescaled orbitals", dense(s.chi))):
                if case["n4"] == 0 and got.size != n * n and not np.any(got):
                    continue
                if got.shape != (n, n):
                    bad.append("%s has shape %s (%s)" % (what, got.shape, tag))
                elif not np.allclose(got, want, atol=tol, rtol=1e-7):
                    i, j = np.unravel_index(np.abs(got - want).argmax(), want.shape)
                    bad.append("%s at (%d, %d) is %r, expected %r (%s)" % (
                        what, i, j, got[i, j], want[i, j], tag))
            if bad:
                return bad
    return bad


def drive_real(case):
    """the package's own Hamiltonian: the response predicts the change of the density"""
    import scipy.linalg as sl
    warnings.simplefilter("ignore")
    from CADMium import Pssolver
    from CADMium.common.coulomb import coulomb
    g, W = grid(case["grid"])
    n, m, pol = g.Nelem, case["m"], case["pol"]
    cap = (2 if pol == 1 else 1) * (1 if m == 0 else 2)
    nmo = int(np.ceil(case["fill"]))
    N = case["fill"] * cap
    s = Pssolver(g, [[nmo] * pol] * (m + 1), [[N] * pol] * (m + 1), {"fractional": True})[m, 0]
    s.hamiltonian()
    s.e0 = -1.5 * max(case["Z"]) ** 2 / (m + 1) ** 2 - 0.5
    H0 = np.asarray(s.H0.todense())
    rng = np.random.default_rng(5 + m + nmo)
    v0 = np.asarray(coulomb(g, *case["Z"])) + 0.3 * rng.uniform(-1, 1, n)
    s.setveff(v0)
    s.calc_orbitals()
    s.calc_response()
    chi = dense(s.chi)
    phi0, eig0 = s.phi / np.sqrt(W @ s.phi ** 2), s.eig
    occ = [cap * min(1, max(0, case["fill"] - j)) for j in range(nmo)]
    tag = "Z=%s m=%d fill=%g pol=%d grid %s" % (case["Z"], m, case["fill"], pol, case["grid"])
    bad = []

    def dens(v):
        w, x = sl.eig(H0 + np.diag(g.w * v), np.diag(g.w))
        if np.abs(w.imag).max() > 1e-9 * np.abs(w).max():
            return None
        d = np.zeros(n)
        for j in range(nmo):
            c = np.abs(w - eig0[j])
            k = c.argmin()
            if np.sort(c)[1] < 0.02 or c[k] > 0.01:
                return None                       # (nearly) degenerate: no linear response
            y = x[:, k].real
            y = y * np.sqrt((g.w @ phi0[:, j] ** 2) / (g.w @ y ** 2))
            d += occ[j] * y ** 2
        return d

    for t in range(3):
        dv = rng.uniform(-1, 1, n) if t else np.eye(n)[n // 2] * 3
        eps = 1e-5
        up, dn = dens(v0 + eps * dv), dens(v0 - eps * dv)
        if up is None or dn is None:
            return bad
        want, got = (up - dn) / (2 * eps), chi @ dv
        if not np.abs(got - want).max() < 2e-5 * np.abs(want).max() + 1e-6 * np.abs(chi).max():
            bad.append("predicted change %s, the density changes by %s (%s)" % (got[:3], want[:3], tag))
            break
    one = chi @ np.ones(n)
    if np.abs(one).max() > 1e-7 * np.abs(chi).max():
        bad.append("a constant potential changes the density (%s)" % tag)
    return bad


def check(ctx):
    c = {"Vs": "{ <<x, y>> : x \\in {<<0,0>>, <<0,3>>, <<3,0>>, <<-3,0>>, <<1,4>>}, "
               "y \\in {<<0,0>>, <<1,1>>, <<-6,-6>>, <<2,2>>} }", "NmoMax": 4} if ctx.thorough else {}
    cases = ctx.tlc("Response", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
    real = [{"grid": g, "Z": z, "m": m, "fill": f, "pol": p}
            for g in ("ab" if not ctx.thorough else "abc") for z in ((2, 1), (1, 3), (2, 2))
            for m in (0, 1, 2) for p in (1, 2) for f in (1, 2, 3, 0.25, 1.5, 2.75)]
    ctx.run_cases(drive_real, real)
