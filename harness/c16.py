"""C16: option dictionaries (spec/Options.tla)."""
import contextlib
import io
import warnings
import numpy as np
from lattice import grid, make_ks
from plattice import frags, make


def value(v):
    k, s = v["k"], v["s"]
    if k == "b":
        return s == "1"
    if k == "i":
        return int(s)
    if k == "f":
        return float(s)
    if k == "lf":
        return [float(x) for x in s.split(",") if x]
    return s


def key(e):
    n = e["n"]
    return {"lower": n, "upper": n.upper(), "title": n.title()}[e["st"]]


def dictionary(entries):
    return {key(e): value(e["v"]) for e in entries}


def same(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return a == b


def compare(obj, settings, what, bad):
    for s in settings:
        got = getattr(obj, s["n"], "missing")
        if not same(got, value(s["v"])):
            bad.append("%s: setting %s is %r, expected %r" % (what, s["n"], got, value(s["v"])))


def get(settings, n):
    return value(next(s["v"] for s in settings if s["n"] == n))


def build(entry, d):
    from CADMium import Inverter, Kohnsham, Partition, Pssolver
    g, W = grid(True)
    if entry == "ks":
        return Kohnsham(g, 2, 3, 1, [[1]], [[2]], d)
    if entry == "part":
        return Partition(g, 3, 3, 2, [[1, 1]], [[1, 1]], 1, [[1, 1]], [[1, 1]], 1, d)
    if entry == "solver":
        return Pssolver(g, [[1], [1]], [[2], [4]], d)
    if entry == "inv":
        return Inverter(g, Pssolver(g, [[1]], [[2]]), d)


def ks_effect(ks, settings, what, bad):
    compare(ks.optKS, [s for s in settings if s["n"] in (
        "interaction_type", "sym", "fractional", "xfunc_id", "cfunc_id", "xc_family")], what, bad)
    if get(settings, "interaction_type") == "dft":
        functional(ks, settings, what, bad)
    for s in np.asarray(ks.solver, dtype=object).ravel():
        compare(s.optSolver, [x for x in settings if x["n"] in ("sym", "fractional")], what + " solver", bad)


def functional(o, settings, what, bad):
    for n, f in (("xfunc_id", o.exchange), ("cfunc_id", o.correlation)):
        if f.func_id != get(settings, n) or f.xc_family != get(settings, "xc_family"):
            bad.append("%s: functional for %s is (%r, %r)" % (what, n, f.func_id, f.xc_family))
    if isinstance(o.hartree, float):
        bad.append("%s: no Hartree potential in an interacting calculation" % what)


def effects(entry, obj, settings, what):
    bad = []
    if entry == "ks":
        ks_effect(obj, settings, what, bad)
    elif entry == "part":
        compare(obj.optPartition, settings, what, bad)
        for n in ("KSa", "KSb"):
            ks_effect(getattr(obj, n), settings, what + " " + n, bad)
        if get(settings, "interaction_type") == "dft":
            functional(obj, settings, what, bad)
        if get(settings, "kinetic_part_type") == "libxcke" and (
                obj.kinetic.func_id != get(settings, "ke_func_id") or obj.kinetic.xc_family != get(settings, "k_family")):
            bad.append("%s: kinetic functional (%r, %r)" % (what, obj.kinetic.func_id, obj.kinetic.xc_family))
    elif entry == "inv":
        compare(obj.optInv, settings, what, bad)
    elif entry == "solver":
        for s in obj.ravel():
            compare(s.optSolver, settings, what, bad)
    return bad


def attempt(f):
    """(accepted, result)"""
    try:
        return True, f()
    except ValueError as e:
        return False, e


def drive(case):
    warnings.simplefilter("ignore")
    entry, d = case["entry"], dictionary(case["dict"])
    copy = dict(d)
    what = "%s(%s)" % (entry, d)
    ok, obj = attempt(lambda: build(entry, d))
    bad = []
    if d != copy:
        bad.append("%s: the caller's dictionary was modified" % what)
    if ok and case["outcome"] == "rejected":
        bad.append("%s was accepted" % what)
    elif not ok and case["outcome"] == "accepted":
        bad.append("%s was rejected: %s" % (what, str(obj)[:200]))
    elif ok:
        bad += effects(entry, obj, case["settings"], what)
    ok2, obj2 = attempt(lambda: build(entry, {}))
    if not ok2:
        bad.append("%s() was rejected after %s" % (entry, what))
    else:
        bad += effects(entry, obj2, case["defaults"], "%s() after %s" % (entry, what))
    return bad[:3]


# ------------------------------------------------------------------ loops
KSC = {"type": "dft", "pol": 2, "sym": False, "nmo": [[2, 1]], "n4": [[8, 4]], "za": 2, "zb": 3,
       "nuc": [[[-9, 1], [-2, 1], [-4, 1], [-3, 1], [-6, 1], [1, 1]], [[-3, 1], [-5, 1], [-8, 1], [0, 1], [-1, 1], [-7, 1]]]}
HM = [[2, 1, 0, 1, 0, -1], [1, 3, 1, 0, 1, 0], [0, 1, 2, -1, 0, 1],
      [1, 0, -1, 4, 1, 0], [0, 1, 0, 1, 5, 1], [-1, 0, 1, 0, 1, 4]]


def loop_object(entry):
    g, W = grid(True)
    if entry == "ks.scf":
        return make_ks(KSC, HM, g, W)
    return make(1, 3, 2, [[[[1]]], [[[1]]]], [[[[8]]], [[[8]]]], (1, 1), {},
                [[-9, -2, -4, -3, -6, 1], [-3, -5, -8, 0, -1, -7]])


def solvers(entry, o):
    ks = [o] if entry == "ks.scf" else frags(o)
    return [s for k in ks for s in np.asarray(k.solver, dtype=object).ravel()], ks


def print_state(entry, o, log, out, warned):
    ss, ks = solvers(entry, o)
    f = {"solves": log, "printed": bool(out.strip()), "warned": warned}
    for i, k in enumerate(ks):
        f["n%d" % i] = None if k.n is None else np.round(k.n, 9).tolist()
        f["vext%d" % i] = None if k.vext is None else np.round(k.vext, 9).tolist()
    f["E"] = float(np.round(np.ravel(getattr(o.E, "E", 0.0))[0], 9))
    return f


def run(entry, d):
    """a short preparatory run, then the run asked for"""
    o = loop_object(entry)
    pre = {"maxiter": 2, "disp": False} if entry == "ks.scf" else {"max_iter": 1}
    with contextlib.redirect_stdout(io.StringIO()):
        o.scf(pre)
    e_before = [k.n.copy() for k in solvers(entry, o)[1]]
    log = []
    orig = {}
    ss, ks = solvers(entry, o)
    for k in ks:
        cls = k.__class__
        f = cls.calc_density

        def calc(*a, _k=k, _f=f, **kw):
            r = _f(_k, *a, **kw)
            log.append([ks.index(_k), np.round(r, 9).tolist()])
            return r
        k.calc_density = calc
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        ok, r = attempt(lambda: o.scf(d))
    warned = sum("iterations" in str(x.message).lower() for x in w)
    return ok, r, print_state(entry, o, log, out.getvalue(), warned), e_before, o


def drive_loop(case):
    warnings.simplefilter("ignore")
    entry = case["entry"]
    lim = "maxiter" if entry == "ks.scf" else "max_iter"
    d = dictionary(case["dict"])
    if not any(e["n"] == lim for e in case["dict"]) and case["dict"]:
        d[lim] = 4
    copy = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
    what = "%s(%s)" % (entry, d)
    ok, r, f, before, o = run(entry, d)
    bad = []
    if d != copy:
        bad.append("%s: the caller's dictionary was modified" % what)
    if case["outcome"] == "rejected":
        if ok:
            return ["%s was accepted" % what]
        if f["solves"]:
            bad.append("%s was rejected after calculating" % what)
        if any(not np.array_equal(a, k.n) for a, k in zip(before, solvers(entry, o)[1])):
            bad.append("%s was rejected but changed the densities" % what)
        return bad
    if not ok:
        return ["%s was rejected: %s" % (what, str(r)[:200])]
    if case["shows"]:
        d0 = dictionary(case["ctx"])
        if lim in d:
            d0.setdefault(lim, 4)
        d1 = dict(d0)
        d1.update(d)
        a, b = run(entry, d0)[2], run(entry, d1)[2]
        if all(a[k] == b[k] for k in a):
            bad.append("%s(%s): adding %s changes nothing" % (entry, d0, dictionary(case["dict"])))
    # the same settings spelled out in full
    full = {s["n"]: value(s["v"]) for s in case["settings"]}
    if case["dict"] and lim not in [e["n"] for e in case["dict"]]:
        full[lim] = 4
    ok2, r2, f2, _, _ = run(entry, full)
    if not ok2:
        return ["%s(%s) was rejected: %s" % (entry, full, str(r2)[:200])]
    for k in f:
        if f[k] != f2[k]:
            bad.append("%s and the same settings spelled out differ in %s: %s / %s" % (
                what, k, str(f[k])[:150], str(f2[k])[:150]))
    return bad[:3]


def check(ctx):
    cases = ctx.tlc("Options")
    if ctx.thorough:
        cases = ctx.tlc("Options", constants={"MaxKeys": "2"}, timeout=800)
    loops = [c for c in cases if c["entry"] in ("ks.scf", "part.scf")]
    ctx.run_cases(drive, [c for c in cases if c["entry"] not in ("ks.scf", "part.scf")])
    ctx.run_cases(drive_loop, loops)
