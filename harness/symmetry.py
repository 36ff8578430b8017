"""Whole calculations and the relations between them (spec/Symmetry.tla); used by C29 and C30."""
import warnings
import numpy as np

NP, NM, L, W = 4, [3, 3], 1.6, 3
_G, _R = {}, {}


def f(q):
    return q[0] / q[1]


def num(q):
    return q[0] if q[1] == 1 else q[0] / q[1]


def grid(a):
    key = tuple(a)
    if key not in _G:
        from CADMium import Psgrid
        g = Psgrid(NP, list(NM), f(a), L, np.arange(-W, W + 1))
        g.initialize()
        _G[key] = g
    return _G[key]


def mat(m, num=num):
    return [[num(x) if isinstance(x, list) else x for x in row] for row in m]


def run(c):
    """the calculation c of the specification, end to end"""
    from CADMium import Kohnsham, Partition
    g = grid(c["a"])
    opt = {"interaction_type": c["int"], "fractional": c["frac"]}
    if c["gga"]:
        opt.update(xc_family="gga", xfunc_id=101, cfunc_id=101)
    if c["kind"] == "ks":
        opt["sym"] = c["sym"]
        o = Kohnsham(g, num(c["za"]), num(c["zb"]), c["pol"], mat(c["nmo"]), mat(c["n"]), opt)
        o.vext = np.full((g.Nelem, c["pol"]), f(c["shift"]))
        if c["field"][0]:
            from CADMium.common.coulomb import coulomb
            o.vext += coulomb(g, 0, num(c["field"]))[:, None]
        s = {"disp": False, "alpha": f(c["alpha"]), "iterative": c["iter"], "spinflipsym": c["flip"]}
        s.update({"maxiter": 400, "e_tol": 1e-11} if c["conv"] else {"maxiter": c["cycles"], "e_tol": 1e-15})
        o.scf(s)
        return o
    opt.update(kinetic_part_type=c["kin"], k_family="gga", ke_func_id=500, hxc_part_type=c["hxc"],
               ab_sym=c["ab"], ens_spin_sym=c["ens"])

    def side(ms):
        nmo, n = [mat(m["nmo"]) for m in ms], [mat(m["n"]) for m in ms]
        return (nmo, n) if len(ms) == 2 else (nmo[0], n[0])
    a, b = side(c["A"]), side(c["B"])
    o = Partition(g, num(c["za"]), num(c["zb"]), c["pol"], *a, num(c["nua"]), *b, num(c["nub"]), opt)
    s = {"disp": False, "alpha": [f(c["alpha"]), f(c["beta"])], "iterative": c["iter"], "calc_type": c["calc"],
         "isolated": c["iso"]}
    s.update({"max_iter": 400, "e_tol": 1e-11} if c["conv"] else {"max_iter": c["cycles"], "e_tol": 1e-15})
    o.scf(s)
    return o


def get(o, name):
    if "+" in name:
        return sum(get(o, x) for x in name.split("+"))
    if name in ("na", "nb"):
        name = {"na": "na_frac", "nb": "nb_frac"}[name]
    for part in name.split("."):
        o = getattr(o, part)
    return np.array(o, dtype=float)


def compare(g, old, new, row, tol):
    bad = []
    for t in row["table"]:
        name, want = t["obs"], np.zeros(())
        for src in t["from"]:
            want = want + get(old, src)
        got = get(new, name)
        if t["cols"]:
            if want.ndim != 2 or max(c["src"] for c in t["cols"]) > want.shape[1]:
                bad.append("%s of the base calculation has shape %s" % (t["from"], want.shape))
                continue
            want = np.stack([want[:, c["src"] - 1] * f(c["f"]) for c in t["cols"]], axis=1)
        if t["mir"]:
            want = np.asarray(g.mirror(want)) if want.ndim else want
        want = f(t["fac"]) * want + f(t["off"])
        if got.shape != want.shape:
            if got.size == want.size == 1:
                got, want = got.reshape(()), want.reshape(())
            else:
                bad.append("%s has shape %s, the relation gives %s" % (name, got.shape, want.shape))
                continue
        scale = max(1e-3, float(np.max(np.abs(want))) if np.all(np.isfinite(want)) else 1.)
        d = np.abs(got - want)
        if not np.all(d <= tol * scale):
            k = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
            bad.append("%s%s is %.12g, the equivalent calculation gives %.12g" % (name, list(map(int, k)), got[k], want[k]))
    return bad


def word(a, b):
    return ", ".join("%s=%s" % (k, v) for k, v in b.items() if a.get(k) != v)


def drive(case):
    bad = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = case["from"]
        key = case["base"]
        if key not in _R:
            _R.clear()
            _R[key] = run(base)
        old = _R[key]
        conv = base["conv"]
        for row in case["rows"]:
            new = run(row["cfg"])
            for m in compare(grid(base["a"]), old, new, row, 2e-6 if conv else 1e-7):
                bad.append("%s: %s (changed: %s)" % (key, m, word(base, row["cfg"])))
                if len(bad) > 12:
                    return bad
    return bad


def cases(ctx, wanted, depth, chunk=4, auto=(), kind="ks"):
    rows = ctx.tlc("Symmetry", constants={"Wanted": "{" + ", ".join('"%s"' % w for w in wanted) + "}", "Depth": str(depth),
                                          "Auto": "{" + ", ".join(map(str, auto)) + "}", "Kind": '"%s"' % kind},
                   timeout=800, workers=4)
    seen, groups = set(), {}
    import json
    for r in sorted(rows, key=lambda r: (r["base"], r["depth"], json.dumps(r, sort_keys=True))):
        if r["depth"] == 0:
            continue
        r["base"] = "%s%s" % (r["base"][0], r["base"][1] or "")
        k = json.dumps([r["base"], r["cfg"], r["table"]], sort_keys=True)
        if k in seen or r["cfg"] == r["from"] and r["scope"] == "full" and not any(t["mir"] for t in r["table"]) and k in seen:
            continue
        seen.add(k)
        groups.setdefault(r["base"], []).append(r)
    out = []
    for b in sorted(groups):
        g = groups[b]
        for i in range(0, len(g), chunk):
            out.append({"base": b, "from": g[0]["from"], "rows": g[i:i + chunk]})
    ctx.notes["calculations"] = ctx.notes.get("calculations", 0) + sum(len(c["rows"]) for c in out) + len(out)
    return out
