"""C18: the symmetric pair (spec/PartMirror.tla, and trajectories of spec/PartScf.tla)."""
import numpy as np
from lattice import Cmp, grid
from partscf import NAMES, execute, state, tag
from plattice import frags, make

FIELDS = ["n", "Q", "veff", "vext", "V.vx", "V.vc", "V.vh", "V.vp"]     # columns per spin
LINES = ["V.ex", "V.ec", "V.eh"]                                        # one column
NUMBERS = ["u", "E.E", "E.Ts", "E.Et"]
ARRAYS = ["E.Eks", "E.evals"]                                           # not fields: taken over
QUANTITIES = FIELDS + LINES + NUMBERS + ARRAYS


def value(qty, who, version, refl, pol, g):
    """the cell's value: distinct numbers everywhere"""
    base = 1.0 + 1000 * who + 50 * version
    if qty in NUMBERS:
        return base
    if qty in ARRAYS:
        return base + 0.25 * np.arange(3 * pol).reshape(1, -1)[:, :3 * pol]
    if qty in LINES:
        x = base + np.arange(g.Nelem, dtype=float)
        return g.mirror(x[:, None])[:, 0] if refl else x
    x = base + np.arange(g.Nelem, dtype=float)[:, None] + 20.0 * np.arange(pol)[None, :]
    return g.mirror(x) if refl else x


def holder(k, qty):
    return (k, qty) if "." not in qty else (getattr(k, qty[0]), qty[2:])


def read(k, qty):
    o, a = holder(k, qty)
    return getattr(o, a)


def write(k, qty, x):
    """in place where there is an array to write into: other holders of the array would see it"""
    o, a = holder(k, qty)
    old = getattr(o, a, None)
    if isinstance(old, np.ndarray) and old.shape == np.shape(x) and old.flags.writeable:
        old[...] = x
    else:
        setattr(o, a, np.array(x) if np.ndim(x) else x)


def pair(setup):
    e, pol = setup["ens"], setup["pol"]
    mem = [[1] * pol], [[1] * pol]
    side = [mem[0], mem[1]] if e else [mem[0]]
    n4 = [[[4] * pol]] * len(side)
    nu = [0.5, 0.5] if e else [1, 1]
    part = make(pol, 2, 2, [side, side], [n4, n4], nu, {"ab_sym": True}, None)
    ks = frags(part)
    g, _ = grid(True)
    for i, k in enumerate(ks):
        for qty in QUANTITIES:
            write(k, qty, value(qty, i + 1, 0, False, pol, g))
    return part, ks


def drive_cells(case):
    g, _ = grid(True)
    setup, bad = case["setup"], []
    part, ks = pair(setup)
    half = len(ks) // 2
    nuc = [k.vnuc.copy() for k in ks]
    solvers = [k.solver for k in ks]
    for step, op in enumerate(case["prog"]):
        if op == 0:
            part.mirrorAB()
        else:
            for qty in QUANTITIES:
                write(ks[op - 1], qty, value(qty, op, step + 1, False, setup["pol"], g))
    names = NAMES[len(ks)]
    for i, (k, name, c) in enumerate(zip(ks, names, case["cells"])):
        for qty in QUANTITIES:
            want = value(qty, c["who"], c["version"], c["refl"], setup["pol"], g)
            got = np.asarray(read(k, qty), dtype=float)
            if got.shape != np.shape(want) or not np.array_equal(got, want):
                bad.append("%s.%s is %s, expected %s%s (steps %s, ens=%s)" % (
                    name, qty, np.ravel(got)[:4], np.ravel(want)[:4],
                    " (mirror image of %s)" % names[c["who"] - 1] if c["refl"] else "", case["prog"], setup["ens"]))
        if not np.array_equal(k.vnuc, nuc[i]) or k.solver is not solvers[i]:
            bad.append("%s: nuclear potential or solvers replaced (steps %s)" % (name, case["prog"]))
    return bad[:4]


def related(part):
    """the relation itself, on whatever the objects hold"""
    g, _ = grid(True)
    ks = frags(part)
    half, bad = len(ks) // 2, []
    names = NAMES[len(ks)]
    for i in range(half):
        a, b = ks[i], ks[i + half]
        for qty in QUANTITIES:
            try:
                x = read(a, qty)
            except AttributeError:
                continue
            if x is None:
                continue
            y = read(b, qty)
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            if qty in FIELDS or qty in LINES:
                x = g.mirror(x if x.ndim == 2 else x[:, None]).reshape(x.shape)
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9):
                bad.append("%s.%s is not the image of %s's" % (names[i + half], qty, names[i]))
        seen = {}
        for k, name in ((a, names[i]), (b, names[i + half])):
            for o, pre in ((k, ""), (k.V, "V."), (k.E, "E.")):
                for key, v in vars(o).items():
                    if isinstance(v, np.ndarray) and v.dtype == float and v.size:
                        for other, w in seen.items():
                            if not other.startswith(name + ".") and np.shares_memory(v, w) and pre + key in QUANTITIES:
                                bad.append("%s.%s shares memory with %s" % (name, pre + key, other))
                        if pre + key in QUANTITIES:
                            seen["%s.%s%s" % (name, pre, key)] = v
    if hasattr(part, "nf") and not np.allclose(part.nf, g.mirror(part.nf), rtol=1e-9, atol=1e-12):
        bad.append("the promolecule is not mirror symmetric")
    return bad


def drive_run(case):
    cmp = Cmp(tag(case))
    part, _ = execute(case)
    state(case, part, cmp)
    return (["%s (%s)" % (b, cmp.tag) for b in related(part)] + cmp.bad)[:4]


def check(ctx):
    cases = ctx.tlc("PartMirror", timeout=300, workers=4)
    ctx.run_cases(drive_cells, cases)
    runs = ctx.tlc("PartScf", constants={"Configs": "<- AllPairs" if ctx.tier == "thorough" else "<- PairConfigs"},
                   timeout=2400, workers=8)
    for i, c in enumerate(runs):
        c["i"] = i
    ctx.run_cases(drive_run, runs)
