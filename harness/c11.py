"""C11: orbital solver: solve and refine (spec/SolverStep.tla)."""
import warnings
import numpy as np

_G = {}
GRIDS = {"a": (2, 4, 3, 1.2, 2.3, 1), "b": (3, 2, 3, 0.9, 2.0, 2), "c": (2, 3, 2, 1.1, 1.9, 1)}


def grid(k="a"):
    if k not in _G:
        from CADMium import Psgrid
        np_, na, nr, a, L, h = GRIDS[k]
        g = Psgrid(np_, [na, nr], a, L, np.arange(-h, h + 1))
        g.initialize()
        g.operators()
        _G[k] = (g, np.array([g.integrate(e) for e in np.eye(g.Nelem)]))
    return _G[k]


def q(x):
    return x[0] / x[1]


def pairs(g):
    perm = np.asarray(g.mirror(np.arange(g.Nelem)))
    return [(k, int(perm[k])) for k in range(g.Nelem) if k < perm[k]]


def designed(g, case):
    """H0 with the specified blocks on the first mirror pairs, high levels elsewhere"""
    import scipy.sparse as sp
    n = g.Nelem
    M = np.diag(60.0 + 7.0 * np.arange(n))
    pr = pairs(g)
    order = [pr[3], pr[1]] + [p for i, p in enumerate(pr) if i not in (1, 3)]
    for b in range(len(case["base"])):
        i, j = order[b]
        M[i, i] = M[j, j] = case["base"][b]
        M[i, j] = M[j, i] = case["coup"][b]
    sw = np.sqrt(g.w)
    return sp.csc_matrix(sw[:, None] * M * sw[None, :]), order


def drive(case):
    warnings.simplefilter("ignore")
    from CADMium import Pssolver
    g, W = grid()
    n = g.Nelem
    sw = np.sqrt(g.w)
    bad = []
    if "q" not in case:
        case = dict(case)
    for pol, sym, iterlin in ((2, False, True), (1, False, False), (1, True, True)):
        if sym and not all(op["op"] != "set" or all(p[0] == p[1] for p in op["v"]) for op in case["hist"]):
            continue
        s = Pssolver(g, [[case["nmo"]] * pol], [[1] * pol],
                     {"sym": sym, "iter_lin_solver": iterlin})[0, 0]
        s.H0, order = designed(g, case)
        s.e0 = -25.0
        tag = "history %s Nmo=%d pol=%d sym=%s" % (
            [o["op"] + (str(o["v"]) if o["op"] == "set" else "") for o in case["hist"]], case["nmo"], pol, sym)
        for t, op in enumerate(case["hist"]):
            ret = {} if t % 2 else None
            if op["op"] == "set":
                v = np.zeros(n)
                for b in range(len(case["base"])):
                    i, j = order[b]
                    v[i], v[j] = op["v"][b]
                s.setveff(v)
            elif op["op"] == "calc":
                s.calc_orbitals((0, 0), ret) if ret is not None else s.calc_orbitals()
            else:
                s.iter_orbitals((0, 0), ret) if ret is not None else s.iter_orbitals()
            if ret and op["op"] != "set":
                if list(ret) != [(0, 0)] or not np.array_equal(ret[(0, 0)][0], s.eig) \
                        or not np.array_equal(ret[(0, 0)][1], s.phi):
                    bad.append("returned record does not hold the solver's orbitals (%s)" % tag)
        eig, phi = np.asarray(s.eig), np.asarray(s.phi)
        if eig.shape != (case["nmo"],) or phi.shape != (n, case["nmo"]):
            bad.append("got %s levels, %s orbitals (%s)" % (eig.shape, phi.shape, tag))
            continue
        for j, o in enumerate(case["orbs"]):
            e = q(o["e"])
            if not abs(eig[j] - e) < 1e-6:
                bad.append("level %d is %r, expected %r (%s)" % (j + 1, eig[j], e, tag))
            y = np.zeros(n)
            i1, i2 = order[o["b"] - 1]
            y[i1], y[i2] = q(o["y"][0]), q(o["y"][1])
            x = phi[:, j] * sw
            c = abs(x @ y) / np.linalg.norm(x) / np.linalg.norm(y)
            if not c > 1 - 1e-9:
                bad.append("orbital %d has overlap %r with the expected one (%s)" % (j + 1, c, tag))
            if sym and case["symv"] and case["hist"][-1]["op"] == "calc":
                mm = np.asarray(g.mirror(phi[:, j].copy()))
                if not (np.array_equal(mm, phi[:, j]) or np.array_equal(mm, -phi[:, j])):
                    bad.append("orbital %d is not exactly even or odd (%s)" % (j + 1, tag))
        if bad:
            return bad
    return bad


def drive_real(case):
    """the package's own Hamiltonian, judged with dense linear algebra"""
    import scipy.linalg as sl
    warnings.simplefilter("ignore")
    from CADMium import Pssolver
    from CADMium.common.coulomb import coulomb
    g, W = grid(case["grid"])
    n = g.Nelem
    bad = []
    m, nmo, pol = case["m"], case["nmo"], case["pol"]
    za, zb = case["Z"]
    s = Pssolver(g, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1),
                 {"sym": case["sym"], "tol_orbital": case["tol"]})[m, pol - 1]
    tag = "Z=%s m=%d Nmo=%d sym=%s grid %s tol=%g" % (case["Z"], m, nmo, case["sym"], case["grid"], case["tol"])
    s.hamiltonian()
    s.e0 = -1.5 * max(za, zb) ** 2 / (m + 1) ** 2 - 0.5
    H0 = np.asarray(s.H0.todense())
    rng = np.random.default_rng(m + 3 * nmo)
    bump = rng.uniform(-1, 1, n)
    bump = 0.5 * (bump + np.asarray(g.mirror(bump)))

    def judge(v, what, tol):
        H = H0 + np.diag(g.w * v)
        w = sl.eigvals(H, np.diag(g.w))
        order = np.argsort(np.abs(w - s.e0))
        if abs(w.imag).max() > 1e-7 or abs(w[order[nmo]] - s.e0) - abs(w[order[nmo - 1]] - s.e0) < 1e-4:
            return 0.0          # ambiguous selection: not specified
        ref = np.sort(w[order[:nmo]].real)
        eig, phi = np.asarray(s.eig), np.asarray(s.phi)
        if eig.shape != (nmo,) or phi.shape != (n, nmo):
            bad.append("%s: shapes %s %s (%s)" % (what, eig.shape, phi.shape, tag))
            return
        if not np.allclose(eig, ref, atol=tol, rtol=0):
            bad.append("%s: levels %s, spectrum has %s (%s)" % (what, eig, ref, tag))
        for j in range(nmo):
            r = H @ phi[:, j] - eig[j] * g.w * phi[:, j]
            if not np.abs(r).max() <= 1e2 * tol * np.abs(g.w * phi[:, j]).max() * (1 + abs(eig[j])):
                bad.append("%s: residual %g of orbital %d (%s)" % (what, np.abs(r).max(), j, tag))
        A = phi / np.linalg.norm(phi, axis=0)
        if np.linalg.svd(A)[1].min() < 1e-6:
            bad.append("%s: orbitals are linearly dependent (%s)" % (what, tag))
        return

    v0 = np.asarray(coulomb(g, za, zb))
    s.setveff(v0)
    s.calc_orbitals()
    judge(v0, "solve", 1e-8)
    if bad:
        return bad
    s.iter_orbitals()
    judge(v0, "refine at the solution", max(1e-8, case["tol"]))
    # a small change of the potential, then refinements: quadratic convergence
    eps = 1e-3
    v1 = v0 + eps * bump
    s.setveff(v1)
    s.iter_orbitals()
    judge(v1, "one refinement after a change of %g" % eps, max(2e-4, case["tol"]))
    for _ in range(4):
        s.iter_orbitals()
    judge(v1, "five refinements after a change of %g" % eps, max(1e-7, case["tol"]))
    s.calc_orbitals()
    judge(v1, "solve after the change", 1e-8)
    return bad


EST_GRIDS = [(3, (4, 5), 1.0, 4.0, 2), (2, (6, 5), 1.5, 5.0, 2), (3, (3, 5), 1.2, 3.0, 1)]
_E = {}


def drive_estimate(case):
    """a Kohn-Sham object's solvers return the lowest levels of the bare nuclei"""
    import scipy.linalg as sl
    warnings.simplefilter("ignore")
    from CADMium import Psgrid
    from CADMium.kohnsham.kohnsham import Kohnsham
    za, zb, m, nmo = case["za"], case["zb"], case["m"], case["nmo"]
    bad = []
    gi = case["grid"]
    if gi not in _E:
        np_, nm, a, L, h = EST_GRIDS[gi]
        g = Psgrid(np_, list(nm), a, L, np.arange(-h, h + 1))
        g.initialize()
        g.operators()
        _E[gi] = g
    g = _E[gi]
    low = {}
    for kind in ("ni", "dft"):
        for pol in (1, 2):
            k = Kohnsham(g, za, zb, pol, [[nmo] * pol] * (m + 1), [[1] * pol] * (m + 1),
                         {"interaction_type": kind})
            for j in range(pol):
                s = k.solver[m, j]
                s.setveff(k.vnuc[:, j])
                s.calc_orbitals()
                if "w" not in low:
                    H = np.asarray(s.H0.todense()) + np.diag(g.w * k.vnuc[:, j])
                    w = sl.eigvals(H, np.diag(g.w))
                    w = w[np.argsort(w.real)]
                    low["w"] = w
                w = low["w"]
                if abs(w[:nmo + 1].imag).max() > 1e-7 or w[nmo].real - w[nmo - 1].real < 1e-5:
                    return bad
                if not np.allclose(np.sort(s.eig), w[:nmo].real, atol=1e-6, rtol=1e-6):
                    bad.append("nuclei %s,%s m=%d (%s, spin %d of %d): levels %s, the lowest are %s"
                               % (za, zb, m, kind, j, pol, np.sort(s.eig), w[:nmo].real))
                    return bad
    return bad


def drive_far(case):
    """two equal centres far apart: nearly degenerate levels, orbitals even or odd"""
    warnings.simplefilter("ignore")
    from CADMium import Psgrid
    from CADMium.kohnsham.kohnsham import Kohnsham
    bad = []
    g = Psgrid(3, list(case["nm"]), case["a"], 2 * case["a"], np.arange(-2, 3))
    g.initialize()
    g.operators()
    for nmo in (2, 3, 4):
        for pol in (1, 2):
            k = Kohnsham(g, case["Z"], case["Z"], pol, [[nmo] * pol] * (case["m"] + 1),
                         [[1] * pol] * (case["m"] + 1), {})
            s = k.solver[case["m"], pol - 1]
            s.setveff(k.vnuc[:, pol - 1])
            s.calc_orbitals()
            ev = []
            for q in range(nmo):
                p = s.phi[:, q]
                mm = np.asarray(g.mirror(p))
                d = [np.abs(mm - p).max() / np.abs(p).max(), np.abs(mm + p).max() / np.abs(p).max()]
                ev.append(int(np.argmin(d)))
                if q < 2 and not min(d) < (1e-7 if s.eig[1] - s.eig[0] < 2e-11 else 1e-3):
                    bad.append("orbital %d of %d of two equal centres %g apart is neither even nor odd (%g)"
                               % (q + 1, nmo, 2 * case["a"], min(d)))
            if sorted(ev[:2]) != [0, 1]:
                bad.append("the lowest pair of two equal distant centres has parities %s" % ev[:2])
    return ["%s (Z=%d m=%d blocks %s)" % (b, case["Z"], case["m"], case["nm"]) for b in bad]


def drive_empty(case):
    """a solver without levels reports no electrons' level"""
    from CADMium import Pssolver
    g, _ = grid()
    bad = []
    s = Pssolver(g, [[0] * case["pol"]], [[0] * case["pol"]])[0, 0]
    s.hamiltonian()
    s.setveff(np.zeros(g.Nelem))
    for op in case["ops"]:
        r = {}
        getattr(s, op)((0, 0), r)
        if list(r) != [(0, 0)]:
            bad.append("%s of an empty solver returned nothing" % op)
        if np.size(s.eig) != 1 or not np.ravel(s.eig)[0] < -1e12:
            bad.append("empty solver reports level %s" % (s.eig,))
        if s.get_homo() > -1e12:
            bad.append("empty solver reports HOMO %r" % s.homo)
        s.calc_density()
        if np.any(s.n):
            bad.append("empty solver has a density")
        s.calc_energy()
        if s.eks != 0 or s.Ts != 0 or s.Vs != 0:
            bad.append("empty solver has energies %r %r %r" % (s.eks, s.Ts, s.Vs))
    return bad


def check(ctx):
    c = {"MaxSteps": 5} if ctx.thorough else {}
    cases = ctx.tlc("SolverStep", constants=c, timeout=800, workers=4)
    c.update(Base="<- DBase", Coup="<- DCoup", Vs="<- DVs")
    # an exactly decoupled degenerate pair is invisible to the eigensolver's even start
    # vector; that solve is bound on the package's own Hamiltonian instead (drive_far)
    cases += [k for k in ctx.tlc("SolverStep", constants=c, timeout=800, workers=4)
              if not any(o["op"] == "set" and q == 0 and v[0] == v[1]
                         for o in k["hist"] for q, v in zip(k["coup"], o.get("v", [])))]
    ctx.run_cases(drive, cases)
    real = []
    for grid_ in (("a", "b", "c") if ctx.thorough else ("a", "b")):
        for Z in ((1, 1), (2, 1), (3, 3), (0, 2)):
            for m in (0, 1, 2):
                for nmo in (1, 2, 3):
                    for sym in (False, True):
                        if sym and Z[0] != Z[1]:
                            continue
                        for tol in (1e-15, 1e-5):
                            real.append({"grid": grid_, "Z": Z, "m": m, "nmo": nmo, "sym": sym,
                                         "pol": 1 + (m + nmo) % 2, "tol": tol})
    ctx.run_cases(drive_real, real)
    ctx.run_cases(drive_empty, [{"pol": p, "ops": o} for p in (1, 2)
                                for o in (["calc_orbitals"], ["iter_orbitals"],
                                          ["calc_orbitals", "iter_orbitals"])])
    est = ctx.tlc("Estimate", timeout=800)
    if not ctx.thorough:
        est = [dict(e, grid=(e["za"] + e["zb"] + e["m"] + e["nmo"]) % 3) for e in est]
    else:
        est = [dict(e, grid=i) for e in est for i in range(3)]
    ctx.run_cases(drive_estimate, est)
    ctx.run_cases(drive_far, [{"a": a, "nm": nm, "Z": Z, "m": m} for a in (6.0, 9.0, 12.0)
                              for nm in ((3, 5), (6, 7)) for Z in ((1, 3, 5) if ctx.thorough else (3, 5))
                              for m in (0, 1)])
