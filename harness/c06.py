"""C06: two-dimensional operators and the kinetic Hamiltonian (spec/Operators.tla)."""
import numpy as np
from astev import ev

GEOM = [(1.0, 2.0), (0.7, 3.3), (2.561, 1.9), (0.4, 2.7)]


def build(case):
    """a real grid with the case's numbers of points"""
    from CADMium import Psgrid
    h, na, nr = case["h"], case["na"], case["nr"]
    a, L = GEOM[(h + na + 2 * nr) % len(GEOM)]
    np_ = 2
    for p in (4, 3):                      # use longer blocks where they fit
        if (na - 1) % (p - 1) == 0 and (nr - 1) % (p - 1) == 0 and (na + nr) % 2:
            np_ = p
            break
    g = Psgrid(np_, [(na - 1) // (np_ - 1), (nr - 1) // (np_ - 1)], a, L, np.arange(-h, h + 1))
    g.initialize()
    return g


def matrices(case, g):
    na, nr = case["na"], case["nr"]
    ha, hr = np.pi / na, g.L / nr
    out = {}
    for k, m in case["mats"].items():
        m = np.array([[n / d for n, d in row] for row in m])
        step = ha if k[1] == "a" else hr
        out[k] = m / step ** int(k[-1])
    return out


def expected(case, g, terms, mats, boundary=False):
    na, nr, h = case["na"], case["nr"], case["h"]
    Ai = (np.arange(na) + 0.5) * np.pi / na
    Xj = (np.arange(nr) + 0.5) * g.L / nr
    A, X = np.tile(Ai, nr), np.repeat(Xj, na)
    env = {"A": A, "X": X, "a": g.a}
    tot = 0.0
    for t in terms:
        if boundary:
            rows = slice(na * (nr - h), None)
            M = np.kron(mats[t["mr"]], np.eye(na))
            l = np.broadcast_to(ev(t["l"], env), A.shape)[rows]
            tot = tot + l[:, None] * M
        else:
            Ma = np.eye(na) if t["ma"] == "I" else mats[t["ma"]]
            Mr = np.eye(nr) if t["mr"] == "I" else mats[t["mr"]]
            l = np.broadcast_to(ev(t["l"], env), A.shape)
            r = np.broadcast_to(ev(t["r"], env), A.shape)
            tot = tot + l[:, None] * np.kron(Mr, Ma) * r[None, :]
    return tot


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m, dtype=float)


def drive(case):
    g = build(case)
    g.operators()
    mats = matrices(case, g)
    bad = []
    tag = "Na=%d Nr=%d half-width=%d" % (case["na"], case["nr"], case["h"])

    def cmp(name, got, want):
        got = dense(got)
        if got.shape != want.shape:
            bad.append("%s has shape %s, expected %s (%s)" % (name, got.shape, want.shape, tag))
            return
        err = np.abs(got - want)
        if not err.max() <= 1e-9 * (1 + np.abs(want).max()):
            i, j = np.unravel_index(np.nanargmax(err), err.shape)
            bad.append("%s[%d,%d] = %r, expected %r (%s)" % (name, i, j, got[i, j], want[i, j], tag))

    for name, terms in case["ops"].items():
        if name[0] != "H":
            cmp(name, getattr(g, name), expected(case, g, terms, mats, name == "blap"))
    from CADMium import Pssolver
    S = Pssolver(g, [[1]] * 6, [[2]] * 6)
    for m in range(6):
        S[m, 0].hamiltonian()
        cmp("Hamiltonian of m=%d" % m, S[m, 0].H0, expected(case, g, case["ops"]["H%d" % m], mats))
    # mirror parity holds to rounding on the code's own matrices
    n = g.Nelem
    perm = np.asarray(g.mirror(np.arange(n)))
    for name in ("elap", "olap", "grada", "gradr", "diva", "divr"):
        m = dense(getattr(g, name))
        if not np.allclose(m[np.ix_(perm, perm)], case["par"][name] * m,
                           atol=1e-10 * (1 + np.abs(m).max())):
            bad.append("%s does not have mirror parity %d (%s)" % (name, case["par"][name], tag))
    # the stored factors invert the even Laplacian
    from scipy.sparse.linalg import spsolve
    g.factorize_laplacian(False)
    lap = dense(g.elap)
    if np.linalg.cond(lap) < 1e8:
        rng = np.random.default_rng(n)
        f = rng.normal(size=n)
        x = spsolve(g.U_lap.tocsc(), spsolve(g.L_lap.tocsc(), lap @ f))
        if not np.allclose(x, f, rtol=1e-5, atol=1e-5):
            bad.append("the stored factors do not invert the Laplacian: max error %g (%s)" % (
                np.abs(x - f).max(), tag))
    return bad


def check(ctx):
    c = {"MaxHalf": 4, "MaxExtra": 6} if ctx.thorough else {}
    cases = ctx.tlc("Operators", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
