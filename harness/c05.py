"""C05: mirror, spin flip, reshape, integration and plot maps (spec/FieldMaps.tla)."""
import warnings
import numpy as np

_CACHE = {}


def grid(case):
    from CADMium import Psgrid
    k = (case["np"], case["nma"], case["nmr"])
    if k not in _CACHE:
        g = Psgrid(k[0], [k[1], k[2]], 0.8 + 0.1 * k[1], 1.7 + 0.2 * k[2], np.array([-1, 0, 1]))
        g.initialize()
        _CACHE[k] = g
    return _CACHE[k]


def labels(n, ncol, kind):
    f = np.arange(1, n * max(ncol, 1) + 1).reshape(n, -1, order="F")
    f = f if kind == "int" else f * 1.37 + 0.11
    if kind == "fortran":
        f = np.asfortranarray(f)
    if kind == "view":                    # a non-contiguous view
        big = np.zeros((2 * n, f.shape[1]))
        big[::2] = f
        f = big[::2]
    return f[:, 0] if ncol == 0 else f


def drive(case):
    g = grid(case)
    n, ncol = case["na"] * case["nr"], case["ncol"]
    bad = []
    tag = "grid %dx%d, %s, word %s" % (case["na"], case["nr"],
                                       "vector" if ncol == 0 else "%d columns" % ncol, case["word"])
    src = np.array(case["src"]) - 1           # [column][point] -> (point, column)
    for kind in ("float", "int", "fortran", "view"):
        f0 = labels(n, ncol, kind)
        f = f0
        for op in case["word"]:
            keep = np.array(f, copy=True)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = getattr(g, op)(f)
            if not np.array_equal(f, keep) or np.shape(f) != keep.shape:
                bad.append("%s changed its input (%s)" % (op, tag))
                return bad
            if np.shape(out) != keep.shape:
                bad.append("%s changed the shape %s to %s (%s)" % (op, keep.shape, np.shape(out), tag))
                return bad
            f = out
        f2 = np.asarray(f).reshape(n, -1, order="F") if ncol else np.asarray(f)[:, None]
        o2 = f0.reshape(n, -1, order="F") if ncol else f0[:, None]
        want = np.stack([o2[s[:, 0], s[:, 1]] for s in src], axis=1)
        if not np.array_equal(f2, want):
            bad.append("%s: values moved to the wrong cells (%s)" % (kind, tag))
            return bad
        sq = np.asarray(g.square(f))
        m = max(ncol, 1)
        if sq.shape[:2] != (case["na"], case["nr"]) or sq.size != n * m or \
                not np.array_equal(sq.reshape(n, m, order="F"), want):
            bad.append("square does not lay out the field as angular x radial (%s)" % tag)
            return bad
        # integral of each column, for that column
        W = np.array([g.integrate(e) for e in np.eye(n)]) if "W" not in g.__dict__ else g.W
        g.__dict__["W"] = W
        res = np.asarray(g.integrate(f), dtype=float)
        exp = W @ want
        tol = 1e-10 * (1 + np.abs(W) @ np.abs(want))
        if ncol <= 1:
            ok = res.size == 1 and abs(res.ravel()[0] - exp[0]) < tol[0]
        else:
            ok = res.shape[-1] == ncol and np.all(np.abs(res.reshape(-1, ncol) - exp) < tol)
        if not ok and ncol == 1 and res.size == 1 and \
                abs(res.ravel()[0] - W.sum() * want.sum()) < 1e-9 * (1 + abs(W.sum() * want.sum())):
            bad.append("integrate of a two-dimensional field with one column returned the total "
                       "weight times the sum of the values (%s, %s)" % (kind, tag))
        elif not ok:
            bad.append("integrate returned %s, column integrals are %s (%s, %s)" % (
                np.ravel(res)[:4], exp, kind, tag))
            return bad
        if ncol and not np.allclose(W[np.arange(n)], np.asarray(g.mirror(W)), rtol=1e-12):
            bad.append("integration weights are not mirror symmetric")
    return bad


def drive_plot(case):
    """Every pixel shows one grid point or its reflection; every point and reflection appears."""
    g = grid(case)
    n = case["na"] * case["nr"]
    bad = []
    X, Z = g.a * np.sinh(g.Xr) * np.sin(g.Xa), g.a * np.cosh(g.Xr) * np.cos(g.Xa)
    for sym in (1, -1):
        for col in (False, True):
            f = labels(n, 1 if col else 0, "float")
            keep = f.copy()
            full, zf, xf = g.plotter(f, sym=sym)
            full, zf, xf = map(np.asarray, (full, zf, xf))
            if not np.array_equal(keep, f):
                bad.append("plotter changed its input")
            if full.shape != zf.shape or full.shape != xf.shape:
                return ["plotter returned arrays of different shapes"]
            seen = set()
            for v, z, x in zip(full.ravel(), zf.ravel(), xf.ravel()):
                hit = np.nonzero((np.abs(Z - z) < 1e-9) & (np.abs(X - abs(x)) < 1e-9))[0]
                if len(hit) != 1:
                    return ["plotter pixel (%r, %r) is no grid point" % (z, x)]
                k, refl = int(hit[0]), x < 0
                want = np.ravel(f)[k] * (sym if refl else 1)
                if v != want:
                    return ["plotter pixel at z=%g x=%g shows %r, the field there is %r" % (z, x, v, want)]
                seen.add((k, bool(refl)))
            if len(seen) != 2 * n:
                bad.append("plotter shows %d of %d points and reflections" % (len(seen), 2 * n))
    f = labels(n, 0, "float")
    zs, vs = g.axis_plot(f)
    Zg = np.asarray(g.Z)
    if np.any(np.diff(zs) < 0):
        bad.append("axis_plot is not sorted along the axis")
    shown = set()
    for z, v in zip(zs, vs):
        k = np.nonzero((Zg == z) & (f == v))[0]
        if len(k) == 0:
            bad.append("axis_plot pairs z=%r with %r, which is not the field at a grid point" % (z, v))
            break
        shown.update(k.tolist())
    need = set(range(case["na"])) | {j * case["na"] for j in range(case["nr"])} \
        | {(j + 1) * case["na"] - 1 for j in range(case["nr"] - 1)}
    if not need <= shown:
        bad.append("axis_plot leaves out points %s next to the axis" % sorted(need - shown))
    return bad


def check(ctx):
    c = {"MaxLen": "6", "Grids": "{ <<2,1,1>>, <<2,2,1>>, <<2,1,3>>, <<2,4,2>>, <<2,3,5>>, <<3,2,1>>, <<3,1,3>>, "
         "<<4,1,2>>, <<4,2,1>>, <<5,2,1>>, <<3,3,2>>, <<2,7,1>>, <<2,1,7>>, <<5,1,2>>, <<6,1,1>>, <<6,2,1>>, <<3,4,4>> }"} \
        if ctx.thorough else {}
    cases = ctx.tlc("FieldMaps", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
    ctx.run_cases(drive_plot, [k for k in cases if not k["word"] and k["ncol"] == 0])
