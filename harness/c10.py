"""C10: occupation of the levels of a solver (spec/Occupation.tla)."""
import numpy as np

_G = []


def grid():
    if not _G:
        from CADMium import Psgrid
        g = Psgrid(2, [4, 3], 1.2, 2.3, np.array([-1, 0, 1]))
        g.initialize()
        g.operators()
        _G.append((g, np.array([g.integrate(e) for e in np.eye(g.Nelem)])))
    return _G[0]


def make(case, N):
    """a table of solvers with the case's solver at row m"""
    from CADMium import Pssolver
    g = grid()[0]
    rows, pol = case["m"] + 1, case["pol"]
    col = (4 * case["n4"] // case["unit"]) % pol if case["n4"] >= 0 else 0
    nmo = [[7 + 10 * i + j for j in range(pol)] for i in range(rows)]
    Ns = [[100.0 + 10 * i + j for j in range(pol)] for i in range(rows)]
    nmo[case["m"]][col] = case["nmo"]
    Ns[case["m"]][col] = N
    if isinstance(N, int):
        Ns = [[int(x) for x in r] for r in Ns]
    S = Pssolver(g, nmo, Ns, {"fractional": case["frac"]})
    return S, col


def drive(case):
    g, W = grid()
    n_ = g.Nelem
    bad = []
    if case["n4"] == -case["unit"]:
        kinds = [-1]
    else:
        kinds = [case["n4"] / case["unit"]]
        if case["n4"] % case["unit"] == 0:
            kinds.append(case["n4"] // case["unit"])
    occ = np.array(case["occ4"], dtype=float) / case["unit"]
    nmo = case["nmo"]
    rng = np.random.default_rng(abs(case["n4"]) + 5 + nmo)
    for N in kinds:
        S, col = make(case, N)
        if S.shape != (case["m"] + 1, case["pol"]):
            return ["solver table has shape %s" % (S.shape,)]
        s = S[case["m"], col]
        tag = "N=%r pol=%d m=%d levels=%d fractional=%s" % (N, case["pol"], case["m"], nmo, case["frac"])
        if s.m != case["m"] or s.Nmo != nmo or not abs(s.N - case["total4"] / case["unit"]) < 1e-12:
            return ["solver carries m=%r Nmo=%r N=%r (%s)" % (s.m, s.Nmo, s.N, tag)]
        for kind in ("site", "spread"):
            if kind == "site":
                phi = np.zeros((n_, nmo))
                for j in range(nmo):
                    phi[(5 * j + 2) % n_, j] = (-1) ** j * (0.3 + j)
            else:
                phi = rng.normal(size=(n_, nmo))
            eig = -np.array([40.0, 9.0, 2.0, 0.25, 0.01])[:max(nmo, 1)]
            if nmo == 0:
                phi, eig = np.zeros((n_, 0)), np.array([-1 / np.finfo(float).eps])
            s.phi, s.eig = phi.copy(), eig.copy()
            s.veff = rng.uniform(-2, 0, n_)
            s.hamiltonian()
            norm = [W @ phi[:, j] ** 2 for j in range(nmo)]
            n = sum((occ[j] * phi[:, j] ** 2 / norm[j] for j in range(nmo)), np.zeros(n_))
            ked = sum((occ[j] * phi[:, j] * (s.H0 @ phi[:, j]) / norm[j] / g.w for j in range(nmo)), np.zeros(n_))
            eks = sum(occ[j] * eig[j] for j in range(nmo))
            homo = eig[case["homo"] - 1] if case["homo"] else -1 / np.finfo(float).eps

            def cmp(name, got, want):
                got = np.asarray(got, dtype=float)
                if got.size != np.size(want) or not np.allclose(
                        got.ravel(), np.ravel(want), rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max())):
                    bad.append("%s = %s, the occupation %s gives %s (%s)" % (
                        name, np.ravel(got)[:4], occ.tolist(), np.ravel(want)[:4], tag))

            s.calc_density()
            cmp("density", s.n, n)
            if np.shape(s.n) != (n_, 1):
                bad.append("density has shape %s (%s)" % (np.shape(s.n), tag))
            cmp("number of electrons", W @ np.asarray(s.n).ravel(), np.array(case["total4"] / case["unit"]))
            s.n = None
            s.calc_energy()
            cmp("eigenvalue sum", s.eks, np.array(eks))
            cmp("density after energies", s.n, n)
            Vs = W @ (n * s.veff)
            cmp("potential energy", s.Vs, np.array(Vs))
            cmp("kinetic energy", s.Ts, np.array(eks - Vs))
            s.calc_ked_WFI()
            cmp("kinetic energy density", s.ked_WFI, ked)
            r = s.get_homo()
            cmp("HOMO eigenvalue", r, np.array(homo))
            cmp("recorded HOMO eigenvalue", s.homo, np.array(homo))
            if nmo:
                s.phi = phi.copy()
                s.normalize_orbitals()
                cmp("norms of normalised orbitals", np.array([W @ s.phi[:, j] ** 2 for j in range(nmo)]),
                    np.full(nmo, float(case["cap"])))
                for j in range(nmo):
                    cmp("shape of normalised orbital", s.phi[:, j], phi[:, j] * np.sqrt(case["cap"] / norm[j]))
            if bad:
                return bad
    return bad


def check(ctx):
    c = {"NmoMax": 5, "MSet": "{0, 1, 2, 3, 4}"} if ctx.thorough else {}
    cases = ctx.tlc("Occupation", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
