"""C04: grid layout, coordinates and metric factors (spec/Grid.tla)."""
import numpy as np
from astev import ev

GEOM = [(1.0, 2.0), (0.7, 3.3), (2.561, 1.9), (0.25, 4.1)]


def geom(case):
    return GEOM[(case["np"] + case["nma"] + 2 * case["nmr"] + case["h"]) % len(GEOM)]


def make(case, a, L):
    from CADMium import Psgrid
    g = Psgrid(case["np"], [case["nma"], case["nmr"]], a, L, np.arange(-case["h"], case["h"] + 1))
    g.initialize()
    return g


def q(seq):
    return np.array([n / d for n, d in seq], dtype=float)


def drive(case):
    a, L = geom(case)
    g = make(case, a, L)
    bad = []
    na, nr, h = case["na"], case["nr"], case["h"]
    tag = "NP=%d NM=[%d,%d] half-width=%d a=%g L=%g" % (case["np"], case["nma"], case["nmr"], h, a, L)
    for name, want in (("Na", na), ("Nr", nr), ("Nelem", na * nr), ("bcN", h),
                       ("NP", case["np"]), ("a", a), ("L", L)):
        if getattr(g, name) != want:
            bad.append("%s = %r, expected %r (%s)" % (name, getattr(g, name), want, tag))
    if bad:
        return bad

    def cmp(name, want, tol=1e-10):
        got = np.asarray(getattr(g, name), dtype=float)
        if got.shape != np.shape(want):
            bad.append("%s has shape %s, expected %s (%s)" % (name, got.shape, np.shape(want), tag))
            return
        err = np.abs(got - want) / (np.abs(want) + 1e-3)
        if not np.max(err) <= tol:
            k = int(np.nanargmax(np.ravel(err)))
            bad.append("%s[%d] = %r, expected %r (%s)" % (
                name, k, np.ravel(got)[k], np.ravel(want)[k], tag))

    A, X = np.pi * q(case["ang"]), L * q(case["rad"])
    cmp("ha", np.pi / na)
    cmp("hr", L / nr)
    cmp("xa", A[:na])
    cmp("xr", X[::na])
    cmp("Xa", A)
    cmp("Xr", X)
    cmp("bXa", np.pi * q(case["bang"]))
    cmp("bXr", L * q(case["brad"]))
    env = {"A": A, "X": X, "a": a}
    for name, e in case["fields"].items():
        cmp(name, ev(e, env))
    # exact reflection symmetry, not just to rounding
    mi = np.array(case["mirror"]) - 1
    for name, s in case["sign"].items():
        v = np.asarray(getattr(g, name), dtype=float)
        if v.shape == mi.shape and not np.array_equal(v[mi], s * v):
            bad.append("%s is not exactly %ssymmetric under the bond-axis mirror (%s)" % (
                name, "anti" if s < 0 else "", tag))
    return bad


def check(ctx):
    c = {"NPs": "{2, 3, 4, 5, 6, 7}", "MaxBlocks": 8, "Halves": "{1, 2, 3, 4, 5}",
         "MaxElem": 260} if ctx.thorough else {}
    cases = ctx.tlc("Grid", constants=c, timeout=800)
    ctx.run_cases(drive, cases)
