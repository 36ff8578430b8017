"""C02: one-dimensional derivative matrices (spec/Deriv1D.tla)."""
import numpy as np

GEOM = [(1.0, 2.0), (0.7, 3.3), (2.561, 1.9)]


def rat(m):
    return np.array([[n / d for n, d in row] for row in m])


def drive(case):
    from CADMium import Psgrid
    bad = []
    h, na, nr = case["h"], case["na"], case["nr"]
    if na < 2 or nr < 2:
        return bad          # a grid has at least one block, i.e. two points
    a, L = GEOM[(h + na + 2 * nr) % len(GEOM)]
    g = Psgrid(2, [na - 1, nr - 1], a, L, np.arange(-h, h + 1))
    g.initialize()
    if (g.Na, g.Nr) != (na, nr):
        return ["Na,Nr = %s, expected %s" % ((g.Na, g.Nr), (na, nr))]
    ha, hr = np.pi / na, L / nr
    want = {}
    for p, q in (("e", "e"), ("o", "o")):
        want[q + "Da1"] = rat(case[p]["a1"]) / ha
        want[q + "Da2"] = rat(case[p]["a2"]) / ha ** 2
        want[q + "Dr1"] = rat(case[p]["r1"]) / hr
        want[q + "Dr2"] = rat(case[p]["r2"]) / hr ** 2
    want["bc1"] = rat(case["bc1"]) / hr
    want["bc2"] = rat(case["bc2"]) / hr ** 2
    for name, m in want.items():
        got = getattr(g, name)
        got = np.asarray(got.todense() if hasattr(got, "todense") else got, dtype=float)
        if got.shape != m.shape:
            bad.append("%s has shape %s, expected %s (Na=%d Nr=%d h=%d)" % (
                name, got.shape, m.shape, na, nr, h))
            continue
        err = np.abs(got - m)
        if not err.max() <= 1e-8 * (1 + np.abs(m).max()):
            i, j = np.unravel_index(np.nanargmax(err), err.shape)
            bad.append("%s[%d,%d] = %r, stencil with parity continuation gives %r (Na=%d Nr=%d half-width=%d)"
                       % (name, i, j, got[i, j], m[i, j], na, nr, h))
    return bad


def check(ctx):
    c = {"MaxExtra": 9} if ctx.thorough else {}
    cases = ctx.tlc("Deriv1D", constants=c, timeout=800)
    ctx.run_cases(drive, cases)
