"""C33: electrons in an external harmonic field (spec/Oscillator.tla)."""
import contextlib
import io
import warnings
import numpy as np
from c32 import f, num

# points per block, blocks, half distance, size
GRIDS = {1: (7, (4, 4), 1.0, 9.0), 2: (7, (3, 4), 1.0, 9.0), 3: (7, (6, 6), 1.0, 10.0)}
# what these grids resolve, for 1-4 orbitals (about eight times the largest error)
TOL = {1: {"level": (1e-5, 4e-5, 1e-4, 2.5e-4), "virial": (3e-3, 6e-3, 7e-3, 8e-3), "moment": (2e-2, 4e-2, 4e-2, 6e-2),
           "density": (4e-3, 7e-3, 9e-3, 2e-2), "hartree": (1e-4, 1e-4, 1e-4, 1e-4), "response": (6e-3, 6e-3, 6e-3, 6e-3)},
       2: {"level": (2e-5, 1.2e-4, 2e-4, 1e-3), "virial": (6e-3, 1.6e-2, 1.6e-2, 2e-2), "moment": (7e-2, .1, .15, .2),
           "density": (8e-3, 3e-2, 4e-2, .1), "hartree": (2.5e-4, 2.5e-4, 2.5e-4, 2.5e-4), "response": (8e-3, 8e-3, 8e-3, 8e-3)},
       3: {"level": (6e-7, 2e-6, 4e-6, 4e-6), "virial": (3e-4, 3e-4, 3e-4, 4e-4), "moment": (2e-3, 2e-3, 2e-3, 2e-3),
           "density": (4e-4, 5e-4, 5e-4, 1e-3), "hartree": (5e-6, 5e-6, 5e-6, 5e-6)}}
_G = {}


def grid(case):
    k = case["grid"]
    if k not in _G:
        from CADMium import Psgrid
        NP, NM, A, B = GRIDS[k]
        g = Psgrid(NP, list(NM), A, np.arccosh(B / A), np.arange(-4, 5))
        g.initialize()
        _G.clear()
        _G[k] = g
    return _G[k]


def axes(g):
    return g.a * np.cosh(g.Xr) * np.cos(g.Xa), g.a * np.sinh(g.Xr) * np.sin(g.Xa)


def density(case, z, rho, wz, wr, c, m=None, j=None):
    """the exact density of a spin (of one angular momentum)"""
    x, s = np.sqrt(wz) * (z - c), wr * rho ** 2
    out = 0 * x
    for mm, row in enumerate(case["terms"]):
        for jj, states in enumerate(row):
            if (m is None or mm == m) and (j is None or jj == j):
                for t in states:
                    H = np.polyval([float(h) for h in t["h"]][::-1], x)
                    L = np.polyval([f(q) for q in t["g"]][::-1], s)
                    out = out + f(t["w"]) * s ** mm * (H * L) ** 2
    return np.sqrt(wz / np.pi) * wr / np.pi * out * np.exp(-x ** 2 - s)


def measure(case):
    """tuples (name, kind of error, got, exact, natural size)"""
    from CADMium import Kohnsham
    from CADMium.hartree.hartree import Hartree
    g, pol = grid(case), case["pol"]
    wz, wr, c, off, el = (f(case[k]) for k in ("wz", "wr", "c", "off", "el"))
    z, rho = axes(g)
    opt = {"interaction_type": "ni", "fractional": True, "sym": case["sym"]}
    k = Kohnsham(g, 0, 0, pol, case["nmo"], [[num(x) for x in r] for r in case["n"]], opt)
    well = 0.5 * wz ** 2 * (z - f(case["start"])) ** 2 + 0.5 * wr ** 2 * rho ** 2 + f(case["fields"]) * z
    k.vext = np.repeat(well[:, None], pol, axis=1)
    k.scf({"disp": False, "maxiter": 3})
    above, size = f(case["above"]), f(case["above"])
    for m, row in enumerate(case["levels"]):
        for j, lv in enumerate(row):
            if lv:
                yield "levels of m=%d, spin %d" % (m, j), "level", np.asarray(k.solver[m, j].eig, float), [f(x) for x in lv], f(lv[-1]) - off
    yield "Eks", "level", np.ravel(k.E.Eks), [f(x) for x in case["Eks"]], size
    yield "u", "level", k.u, f(case["u"]), f(case["u"]) - off
    yield "Ts + Vext", "level", k.E.Ts + k.E.Vext, f(case["E"]), size
    yield "Vks", "virial", np.sum(k.E.Vks), above / 2 + el * off, size
    yield "Ts", "virial", k.E.Ts, above / 2, size
    yield "Vext", "virial", k.E.Vext, above / 2 + el * off, size
    yield "Et", "virial", k.E.Et, above / 2, size
    yield "E", "virial", k.E.E, above / 2, size
    yield "Enuc", "sum", k.E.Enuc, 0., size
    yield "electrons", "sum", g.integrate(np.sum(k.n, axis=1)), el, el
    if not case["simple"]:
        return
    tot = np.sum(k.n, axis=1)
    spread, width = f(case["spread"]), f(case["width"])
    yield "<z - c>", "moment", g.integrate(tot * (z - c)), 0., np.sqrt(spread * el)
    yield "<(z - c)^2>", "moment", g.integrate(tot * (z - c) ** 2), spread, spread
    yield "<rho^2>", "moment", g.integrate(tot * rho ** 2), width, width
    exact = np.array([density(case, z, rho, wz, wr, c, j=j) for j in range(pol)]).T
    yield "density", "density", k.n, exact, el * wr * np.sqrt(wz)
    yield "density, in all", "density", [g.integrate(abs(k.n[:, j] - exact[:, j])) for j in range(pol)], np.zeros(pol), el
    if case["lowest"]:
        r = np.sqrt((z - c) ** 2 + rho ** 2)
        from scipy.special import erf
        want = el * erf(np.sqrt(wz) * r) / r
        v = Hartree(g).v_hartree(exact)
        yield "Hartree potential", "hartree", v, np.repeat(want[:, None], pol, axis=1), el * np.sqrt(wz)
        yield "Hartree energy", "hartree", 0.5 * g.integrate(np.sum(exact, axis=1) * v[:, 0]), 0.5 * el * el * np.sqrt(2 * wz / np.pi), el * el * np.sqrt(wz)
    if case["respond"]:
        h = 1e-4
        for m, row in enumerate(case["terms"]):
            for j, states in enumerate(row):
                if not states:
                    continue
                s = k.solver[m, j]
                s.calc_response()
                d = lambda **v: density(case, z, rho, **dict(dict(wz=wz, wr=wr, c=c, m=m, j=j), **v))  # noqa: E731
                n = sum(f(t["w"]) for t in states)
                yield ("response to a field, m=%d" % m, "response", s.chi @ z, (d(c=c - h) - d(c=c + h)) / (2 * h * wz ** 2), n * wr / np.sqrt(wz))
                yield ("response to a well stiffer along the axis, m=%d" % m, "response", s.chi @ (wz * (z - c) ** 2), (d(wz=wz + h) - d(wz=wz - h)) / (2 * h), n * wr / np.sqrt(wz))
                yield ("response to a stiffer round well, m=%d" % m, "response", s.chi @ (wr * rho ** 2), (d(wr=wr + h) - d(wr=wr - h)) / (2 * h), n * np.sqrt(wz))


def drive(case):
    bad = []
    depth = max(len(lv) for row in case["levels"] for lv in row)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        for name, what, got, want, size in measure(case):
            got, want = np.asarray(got, float), np.asarray(want, float)
            if got.shape != want.shape and got.size == want.size:
                got = got.reshape(want.shape)
            tol = 1e-10 if what == "sum" else TOL[case["grid"]][what][depth - 1]
            d = np.abs(got - want) if got.shape == want.shape else np.array(np.nan)
            if not np.all(d <= tol * size):
                i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
                bad.append("well %s/%s at %s, field %s, electrons %s: %s is %s, exactly %s" % (
                    num(case["wz"]), num(case["wr"]), num(case["start"]), num(case["fields"]),
                    [[num(x) for x in r] for r in case["n"]], name, got[i] if got.shape == want.shape else got.shape, want[i]))
    return bad


def qs(*rats):
    return "{" + ", ".join("<<%d, %d>>" % r for r in rats) + "}"


def wells(*pairs):
    return "{" + ", ".join("<<<<%d, %d>>, <<%d, %d>>>>" % p for p in pairs) + "}"


ROUND, LONG, FLAT = (1, 1, 1, 1), (1, 1, 3, 2), (3, 2, 1, 1)
YES, NO, BOTH = "{TRUE}", "{FALSE}", "{FALSE, TRUE}"


def runs(thorough):
    """constants: wells, centres, fields, chunks, additions, grids, symmetric, one orbital more, response"""
    def c(w, centres, fields, chunks, adds, grid, sym=NO, extra=NO, respond="FALSE"):
        return {"Wells": wells(*w), "Centres": qs(*centres), "Fields": qs(*fields) if fields else "{}", "Chunks": qs(*chunks), "Adds": str(adds),
                "Grids": "{%d}" % grid, "Syms": sym, "Extras": extra, "Respond": respond, "MaxFields": "2" if len(fields) > 1 else "1"}
    if thorough:
        yield c((ROUND, LONG, FLAT), ((1, 1),), ((1, 2),), ((1, 1), (4, 1)), 2, 1, extra=BOTH)
        yield c((ROUND, LONG, FLAT), ((0, 1),), (), ((3, 2), (4, 1)), 2, 1, sym=YES, extra=BOTH)
        yield c((ROUND, FLAT), ((1, 1),), ((1, 2),), ((1, 1), (4, 1)), 1, 3, extra=BOTH)
        yield c((ROUND, LONG, FLAT), ((0, 1), (1, 1)), (), ((3, 2), (4, 1)), 2, 2, respond="TRUE")
        yield c((ROUND, FLAT), ((1, 2),), ((1, 2), (1, 4)), ((2, 1),), 2, 1)
    else:
        yield c((ROUND, LONG), ((1, 1),), (), ((4, 1),), 2, 1)
        yield c((FLAT,), ((1, 2),), ((1, 2), (1, 4)), ((3, 2),), 1, 1, extra=BOTH)
        yield c((ROUND, FLAT), ((0, 1),), (), ((3, 2), (4, 1)), 1, 1, sym=YES, extra=BOTH)
        yield c((FLAT,), ((1, 1),), ((1, 2),), ((1, 1),), 1, 3)
        yield c((LONG, FLAT), ((1, 1),), ((1, 2),), ((1, 1), (7, 2)), 1, 2, respond="TRUE")


def check(ctx):
    cases = []
    for c in runs(ctx.thorough):
        got = {str(k): k for k in ctx.tlc("Oscillator", constants=c, timeout=600, workers=4)}   # fields in either order
        cases += got.values()
    cases.sort(key=lambda c: (not c["respond"], c["grid"] != 3, c["grid"]))
    ctx.run_cases(drive, cases, timeout=400)
