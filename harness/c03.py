"""C03: composite quadrature weights (spec/Quad.tla)."""
import numpy as np


def drive_line(case):
    from CADMium.common.NC import NC
    want = np.array([a / b for a, b in case["w"]])
    got = np.asarray(NC(case["np"], case["nb"]), dtype=float)
    if got.shape != want.shape or not np.abs(got - want).max() < 1e-8:
        return ["line weights for NP=%d, %d blocks: got %s, exact %s" % (
            case["np"], case["nb"], got.tolist(), want.tolist())]
    return []


def drive_grid(case):
    """Two-dimensional weights of an initialised grid = tensor product, angular index fastest,
    and the grid integrates with them: 2 pi ha hr * sum(w_a w_r * volume element * f)."""
    from CADMium import Psgrid
    A, R = case["A"], case["R"]
    wa = np.array([a / b for a, b in A["w"]])
    wr = np.array([a / b for a, b in R["w"]])
    aa, L = 1.3, 2.1
    g = Psgrid(A["np"], [A["nb"], R["nb"]], aa, L, np.array([-1, 0, 1]))
    g.initialize()
    want = np.outer(wr, wa).ravel()
    bad = []
    got = np.asarray(g.wi, dtype=float)
    if got.shape != want.shape or not np.abs(got - want).max() < 1e-8:
        return ["2D weights NP=%d NM=[%d,%d] differ from the tensor product of the line rules (max %s)" % (
            A["np"], A["nb"], R["nb"], np.abs(got - want).max() if got.shape == want.shape else "shape")]
    # a field divided by the volume element isolates the rule itself
    ha, hr = np.pi / len(wa), L / len(wr)
    rng = np.random.default_rng(len(want))
    f = rng.normal(size=len(want))
    val = g.integrate(f / g.w)
    exp = 2 * np.pi * ha * hr * float(want @ f)
    if not abs(val - exp) < 1e-9 * (1 + np.abs(want * f).sum()):
        bad.append("integrate(f/w) = %r, rule gives %r" % (val, exp))
    return bad


def check(ctx):
    c = {"MaxNB": 12, "MaxPts": 73} if ctx.thorough else {}
    cases = ctx.tlc("Quad", constants=c, timeout=800)
    ctx.run_cases(drive_line, cases)
    pairs = []
    for A in cases:
        for R in cases:
            if A["np"] == R["np"] and len(A["w"]) * len(R["w"]) <= (700 if ctx.thorough else 300):
                pairs.append({"A": A, "R": R})
    ctx.run_cases(drive_grid, pairs)
