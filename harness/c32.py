"""C32: systems whose exact answer is known (spec/Atoms.tla)."""
import warnings
import numpy as np

# points per block, blocks, half distance and size in units of 1/z for shells 1, 2, ...
GRIDS = {1: (7, (4, 4), 1.0, (25, 45, 70)), 2: (7, (5, 5), 2.0, (25, 45, 70)), 3: (7, (8, 8), 1.0, (25, 45, 70)), 4: (7, (3, 4), 0.3, (25, 45, 70)),
         5: (7, (4, 5), 1.0, (25, 45, 70, 100, 140))}
# what these grids resolve, for shells 1-3 (about eight times the largest error)
TOL = {1: {"level": (3e-7, 1e-6, 1.2e-5), "virial": (2e-4, 3e-4, 1e-3), "moment": (2e-3, .1, 1.), "density": (2e-4, 6e-4, 2e-3), "hartree": (2e-5, 2e-4, 1e-3)},
       2: {"level": (3e-7, 4e-7, 6e-7), "virial": (2e-5, 5e-5, 2e-4), "moment": (2e-4, 4e-3, 2e-2), "density": (2e-6, 8e-5, 4e-4), "hartree": (1.5e-5, 8e-5, 2e-4)},
       3: {"level": (1e-9, 5e-9, 4e-7), "virial": (7e-8, 8e-7, 8e-6), "moment": (3e-7, 4e-4, 2e-2), "density": (5e-8, 5e-7, 6e-6), "hartree": (2e-8, 5e-8, 2e-7)},
       4: {"level": (7e-7, 5e-6, 3e-5), "virial": (7e-4, 1e-3, 6e-3), "moment": (6e-3, .3, 5.), "density": (7e-4, 1e-3, 8e-3), "hartree": (4e-5, 3e-4, 2e-3)},
       5: {"level": (0, 0, 1e-7, 1e-6, 2e-6), "virial": (0, 0, 4e-5, 3e-4, 3e-4), "moment": (0, 0, .3, 2., 5.), "density": (0, 0, 5e-4, 3e-3, 3e-3)}}
_G = {}


def f(q):
    return q[0] / q[1]


def num(q):
    return q[0] if q[1] == 1 else q[0] / q[1]


def grid(case):
    k, z, s = case["grid"], f(case["z"]), case["shell"]
    if (k, z, s) not in _G:
        from CADMium import Psgrid
        NP, NM, A, B = GRIDS[k]
        g = Psgrid(NP, list(NM), A / z, np.arccosh(B[s - 1] / A), np.arange(-4, 5))
        g.initialize()
        _G.clear()
        _G[(k, z, s)] = g
    return _G[(k, z, s)]


def geometry(g, side):
    """distance from the nucleus, height above it, distance from the axis"""
    ch, c = np.cosh(g.Xr), np.cos(g.Xa)
    zed = g.a * ch * c
    rho = g.a * np.sinh(g.Xr) * np.sin(g.Xa)
    at = {"a": -g.a, "b": g.a}[side]
    return np.sqrt((zed - at) ** 2 + rho ** 2), zed - at, rho


def measure(case):
    """tuples (name, kind of error, got, exact, natural size)"""
    from CADMium import Kohnsham, Partition
    from CADMium.hartree.hartree import Hartree
    g, z, pol, kind = grid(case), f(case["z"]), case["pol"], case["kind"]
    q, a = num(case["z"]), case["focus"] == "a"
    n, nmo = [[num(x) for x in r] for r in case["n"]], case["nmo"]
    z2, el = z * z, f(case["el"])
    opt = {"interaction_type": "ni", "fractional": True}
    if kind == "pair":
        other = [[1] + [0] * (pol - 1)]
        me, you = (nmo, n), (other, other)
        (ma, na), (mb, nb) = (me, you) if a else (you, me)
        p = Partition(g, q, q, pol, ma, na, 1, mb, nb, 1, dict(opt, kinetic_part_type="none"))
        p.scf({"disp": False, "isolated": True, "max_iter": 3, "e_tol": 1e-12})
        k = p.KSa if a else p.KSb
        e, o = f(case["E"]), -z2 / 2
        size = (el + 1) * z2
        yield "E.Ea", "level", p.E.Ea, e if a else o, size
        yield "E.Eb", "level", p.E.Eb, o if a else e, size
        yield "E.Ef", "level", p.E.Ef, e + o, size
        yield "E.E", "level", p.E.E, e + o + z2 / (2 * g.a), size
        yield "E.Tsf", "virial", p.E.Tsf, -e - o, size
        yield "E.Enucf", "virial", p.E.Enucf, 2 * (e + o), size
        yield "electrons in all", "sum", g.integrate(np.sum(p.nf, axis=1)), el + 1, el + 1
    else:
        k = Kohnsham(g, q if a or kind != "atom" else 0, 0 if a and kind == "atom" else q, pol, nmo, n,
                     dict(opt, sym=kind == "ion sym"))
        k.scf({"disp": False, "maxiter": 3})
        yield "E.Et", "level", k.E.Et, f(case["E"]), el * z2
        yield "E.E", "level", k.E.E, f(case["E"]) + (z2 / (2 * g.a) if kind != "atom" else 0), el * z2
    for m, row in enumerate(case["levels"]):
        for j, lv in enumerate(row):
            if lv:
                yield "levels of m=%d, spin %d" % (m, j), "level", np.asarray(k.solver[m, j].eig, float), [f(x) for x in lv], z2
    yield "Eks", "level", np.ravel(k.E.Eks), [f(x) for x in case["Eks"]], el * z2
    yield "u", "level", k.u, f(case["u"]), z2
    yield "Ts + Enuc", "level", k.E.Ts + k.E.Enuc, f(case["E"]), el * z2
    yield "electrons", "sum", g.integrate(np.sum(k.n, axis=1)), el, el
    if "ion" in kind:
        return
    yield "Ts", "virial", k.E.Ts, f(case["Ts"]), el * z2
    yield "Enuc", "virial", k.E.Enuc, f(case["Enuc"]), el * z2
    if not case["circular"]:
        return
    r, h, rho = geometry(g, case["focus"])
    tot = np.sum(k.n, axis=1)
    yield "<r>", "moment", g.integrate(tot * r), f(case["r"]), el / z
    yield "<r^2>", "moment", g.integrate(tot * r * r), f(case["r2"]), el / z2
    yield "<z>", "moment", g.integrate(tot * h), 0., el / z
    yield "<z^2>", "moment", g.integrate(tot * h * h), f(case["z2"]), el / z2
    exact = np.zeros_like(k.n)
    for row in case["terms"]:
        for j, t in enumerate(row):
            exact[:, j] += f(t["c"]) / np.pi * z ** 3 * (z * rho) ** t["p"] * np.exp(-f(t["d"]) * z * r)
    yield "density", "density", k.n, exact, el * z ** 3
    yield "density, in all", "density", [g.integrate(abs(k.n[:, j] - exact[:, j])) for j in range(pol)], np.zeros(pol), el
    if case["lowest"]:
        v = Hartree(g).v_hartree(exact)
        want = el * (1 - (1 + z * r) * np.exp(-2 * z * r)) / r
        yield "Hartree potential", "hartree", v, np.repeat(want[:, None], pol, axis=1), el * z
        yield "Hartree energy", "hartree", 0.5 * g.integrate(np.sum(exact, axis=1) * v[:, 0]), f(case["hartree"]), el * el * z


def drive(case):
    bad = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name, what, got, want, size in measure(case):
            got, want = np.asarray(got, float), np.asarray(want, float)
            if got.shape != want.shape and got.size == want.size:
                got = got.reshape(want.shape)
            tol = 1e-10 if what == "sum" else TOL[case["grid"]][what][case["shell"] - 1]
            d = np.abs(got - want) if got.shape == want.shape else np.array(np.nan)
            if not np.all(d <= tol * size):
                i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
                if d.shape != want.shape:
                    i = ()
                bad.append("%s z=%s at %s, electrons %s: %s is %s, exactly %s" % (
                    case["kind"], num(case["z"]), case["focus"], [[num(x) for x in r] for r in case["n"]], name,
                    got[i], want[i]))
    return bad


def runs(thorough):
    atom, pair, ion = '{"atom"}', '{"pair"}', '{"ion", "ion sym"}'
    yes, no, both = "{TRUE}", "{FALSE}", "{FALSE, TRUE}"
    if thorough:
        yield atom, (1, 3), ((1, 1), (4, 1)), 2, both, "{1, 2}"
        yield atom, (2,), ((3, 2),), 3, both, "{2, 4}"
        yield pair, (1, 2), ((1, 1), (4, 1)), 2, no, "{1, 4}"
        yield ion, (1, 3), ((1, 1), (4, 1)), 2, both, "{1}"
        yield ion, (1,), ((2, 1),), 3, no, "{3}"
        yield '{"atom", "pair"}', (2,), ((1, 1),), 2, no, "{3}"
        yield atom, (1, 2), ((1, 1), (3, 1)), 2, both, "{5}"
    else:
        yield atom, (3,), ((1, 1), (4, 1)), 2, no, "{1}"
        yield atom, (2,), ((3, 2),), 2, yes, "{2}"
        yield pair, (3,), ((1, 1),), 2, no, "{1}"
        yield ion, (1, 2), ((1, 1),), 2, no, "{1}"
        yield '{"atom", "ion"}', (1,), ((1, 1),), 1, no, "{3}"
        yield atom, (1,), ((4, 1),), 1, yes, "{3}"
        yield atom, (2,), ((3, 1),), 1, both, "{5}"


def check(ctx):
    cases = []
    for kinds, zs, chunks, adds, extras, grids in runs(ctx.thorough):
        c = {"Rows": "3", "Deep": "3", "Least": "0"} if grids != "{5}" else {"Rows": "5", "Deep": "5", "Least": "2"}
        c |= {"Charges": "{" + ", ".join("<<%d, 1>>" % x for x in zs) + "}", "Kinds": kinds, "Adds": str(adds),
             "Chunks": "{" + ", ".join("<<%d, %d>>" % x for x in chunks) + "}", "Extras": extras, "Grids": grids}
        k = ctx.tlc("Atoms", constants=c, timeout=600, workers=4)
        cases += k
    # the slow ones first, and those on one grid together
    cases.sort(key=lambda c: (c["grid"] != 3, c["grid"], f(c["z"]), c["shell"]))
    ctx.run_cases(drive, cases, timeout=400)
