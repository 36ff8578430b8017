"""C07: Hartree potential (spec/Hartree.tla)."""
import numpy as np
from astev import ev
import c06


def drive(case):
    g = c06.build(case)
    g.operators()
    g.factorize_laplacian(False)
    from CADMium.hartree.hartree import Hartree
    H = Hartree(g)
    na, nr, h = case["na"], case["nr"], case["h"]
    n = na * nr
    mats = c06.matrices(case, g)
    lap = c06.expected(case, g, case["ops"]["elap"], mats)
    blap = c06.expected(case, g, case["ops"]["blap"], mats, True)
    Ai = (np.arange(na) + 0.5) * np.pi / na
    env = {"A": np.tile(Ai, nr), "X": np.repeat((np.arange(nr) + .5) * g.L / nr, na), "a": g.a}
    benv = {"A": np.tile(Ai, h), "X": np.repeat((nr + np.arange(h) + .5) * g.L / nr, na), "a": g.a}
    mom = [np.broadcast_to(ev(e, env), (n,)) for e in case["moments"]]
    tail = [np.broadcast_to(ev(e, benv), (na * h,)) for e in case["tails"]]
    W = np.array([g.integrate(e) for e in np.eye(n)])
    tag = "Na=%d Nr=%d half-width=%d" % (na, nr, h)
    bad = []

    def judge(dens, what):
        keep = dens.copy()
        v = np.asarray(H.v_hartree(dens), dtype=float)
        if not np.array_equal(keep, dens):
            bad.append("v_hartree changed the density (%s)" % tag)
        cols = 1 if dens.ndim == 1 else dens.shape[1]
        if v.shape != (n, cols):
            bad.append("potential of %s has shape %s (%s)" % (what, v.shape, tag))
            return v
        if cols == 2 and not np.array_equal(v[:, 0], v[:, 1]):
            bad.append("spin columns of the Hartree potential differ (%s, %s)" % (what, tag))
        tot = dens if dens.ndim == 1 else dens.sum(1)
        bv = sum(t * (W @ (m * tot)) for t, m in zip(tail, mom))
        src = ev(case["source"], dict(env, n=tot))
        full = np.zeros(n)
        full[na * (nr - h):] = blap @ bv
        res = lap @ v[:, 0] + full - src
        scale = np.abs(lap) @ np.abs(v[:, 0]) + np.abs(full) + np.abs(src)
        if not np.abs(res).max() <= 1e-8 * scale.max():
            k = int(np.nanargmax(np.abs(res)))
            bad.append("Poisson equation violated by %r at point %d for %s (%s)" % (res[k], k, what, tag))
        return v

    rng = np.random.default_rng(case["na"] * 100 + case["nr"])
    for k in range(n):
        judge(np.eye(n)[k], "unit density at point %d" % k)
        if bad:
            return bad
    for t in range(3):
        d = rng.uniform(0, 1, n)
        judge(d, "a random density")
        judge(d[:, None], "a one-column density")
        d2 = rng.uniform(0, 1, (n, 2))
        v = judge(d2, "a two-column density")
        e = np.asarray(H.e_hartree(d2), dtype=float)
        if e.size != n or not np.allclose(e.ravel(), 0.5 * v[:, 0], rtol=1e-10, atol=1e-12):
            bad.append("Hartree energy per particle is not half the potential (%s)" % tag)
        e1 = np.asarray(H.e_hartree(d[:, None]), dtype=float)
        v1 = np.asarray(H.v_hartree(d))
        if e1.size != n or not np.allclose(e1.ravel(), 0.5 * v1[:, 0], rtol=1e-10, atol=1e-12):
            bad.append("one-column Hartree energy per particle is not half the potential (%s)" % tag)
    return bad


def check(ctx):
    c = {"MaxHalf": 3, "MaxExtra": 6} if ctx.thorough else {}
    cases = ctx.tlc("Hartree", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
