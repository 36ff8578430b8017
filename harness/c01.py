"""C01: finite-difference weights (spec/FDWeights.tla)."""
import numpy as np


def drive(case):
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients
    x = np.array(case["x"])
    want = np.array([n / d for n, d in case["w"]])
    got = np.asarray(finite_difference_coefficients(x, case["k"]), dtype=float)
    if got.shape != want.shape:
        return ["weights have shape %s for stencil %s" % (got.shape, case["x"])]
    err = np.abs(got - want).max()
    if not err <= 1e-8 * (1 + np.abs(want).max()):
        return ["weights of stencil %s, derivative %d: got %s, exact %s" % (
            case["x"], case["k"], got.tolist(), want.tolist())]
    return []


def drive_grid(case):
    """The grid's own weights d1, d2 for its stencil."""
    from CADMium import Psgrid
    h = (len(case["x"]) - 1) // 2
    g = Psgrid(2, [max(2 * h, 3), max(2 * h, 3) + 1], 1.0, 2.0, np.array(case["x"]))
    g.initialize()
    want = np.array([n / d for n, d in case["w"]])
    got = np.asarray(g.d1 if case["k"] == 1 else g.d2, dtype=float).ravel()
    if got.shape != want.shape or not np.abs(got - want).max() <= 1e-8 * (1 + np.abs(want).max()):
        return ["grid stencil weights d%d for %s: got %s, exact %s" % (
            case["k"], case["x"], got.tolist(), want.tolist())]
    return []


def check(ctx):
    c = {}
    if ctx.thorough:
        c = {"MaxOff": 4, "MaxLen": 6, "Derivs": "{1, 2, 3}"}
    cases = ctx.tlc("FDWeights", constants=c)
    ctx.run_cases(drive, cases)
    sym = [k for k in cases if k["x"] == list(range(-(len(k["x"]) // 2), len(k["x"]) // 2 + 1))
           and len(k["x"]) > 2 and k["k"] < 3]
    ctx.run_cases(drive_grid, sym)
