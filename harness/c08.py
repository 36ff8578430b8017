"""C08: nuclear potentials (spec/Nuclear.tla)."""
import warnings
import numpy as np
from astev import ev

GRIDS = [(2, 3, 2, 1.3, 2.2), (3, 1, 3, 0.6, 3.1), (2, 2, 5, 2.0, 1.5)]
_G = {}


def grid(i):
    if i not in _G:
        from CADMium import Psgrid
        np_, na, nr, a, L = GRIDS[i]
        g = Psgrid(np_, [na, nr], a, L, np.array([-1, 0, 1]))
        g.initialize()
        g.operators()
        _G[i] = g
    return _G[i]


def drive(case):
    bad = []
    for i in range(len(GRIDS)):
        g = grid(i)
        n = g.Nelem
        env = {"A": np.tile((np.arange(g.Na) + .5) * np.pi / g.Na, g.Nr),
               "X": np.repeat((np.arange(g.Nr) + .5) * g.L / g.Nr, g.Na), "a": g.a}
        za, zb = case["za"][0] / case["za"][1], case["zb"][0] / case["zb"][1]
        if case["za"][1] == 1:
            za = int(za)
        if case["zb"][1] == 1:
            zb = int(zb)
        pol = case["pol"]
        tag = "Za=%s Zb=%s pol=%d sym=%s" % (za, zb, pol, case["sym"])

        def cmp(name, got, e, cols):
            want = np.broadcast_to(ev(e, env), (n,))
            got = np.asarray(got, dtype=float)
            if cols:
                if got.shape != (n, cols):
                    bad.append("%s has shape %s (%s)" % (name, got.shape, tag))
                    return
                want = np.repeat(want[:, None], cols, axis=1)
            elif got.shape != (n,):
                bad.append("%s has shape %s (%s)" % (name, got.shape, tag))
                return
            if not np.all(np.abs(got - want) <= 1e-9 * (1 + np.abs(want))):
                k = int(np.nanargmax(np.abs(got - want).reshape(n, -1).max(1)))
                bad.append("%s at point %d is %r, the nuclei give %r (%s)" % (
                    name, k, got[k], want[k], tag))

        from CADMium.common.coulomb import coulomb
        from CADMium import Kohnsham, Partition
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = np.asarray(coulomb(g, za, zb))
            cmp("coulomb", v, case["bare"], 0)
            cmp("mirrored coulomb", g.mirror(v), case["swapped"], 0)
            opt = {"interaction_type": "ni", "sym": case["sym"]}
            if case["kind"] == "ks":
                ks = Kohnsham(g, za, zb, pol, [[1] * pol], [[1] * pol], opt)
                cmp("Kohn-Sham nuclear potential", ks.vnuc, case["ks"], pol)
                if case["sym"] and not np.array_equal(ks.vnuc, g.mirror(ks.vnuc)):
                    bad.append("nuclear potential of a symmetric calculation is not exactly symmetric (%s)" % tag)
            else:
                nmo, N = [[1] * pol], [[1] * pol]
                for ens in (False, True):
                    if ens:
                        p = Partition(g, za, zb, pol, [nmo, nmo], [N, N], 0.5, [nmo, nmo], [N, N], 0.5, opt)
                    else:
                        p = Partition(g, za, zb, pol, nmo, N, 1, nmo, N, 1, opt)
                    cmp("fragment A field", p.va, case["va"], 0)
                    cmp("fragment B field", p.vb, case["vb"], 0)
                    cmp("total external potential", p.V.vext, case["total"], pol)
                    frs = [("A", p.KSa, "frag_a"), ("B", p.KSb, "frag_b")]
                    if ens:
                        frs += [("A (second member)", p.KSA, "frag_a"), ("B (second member)", p.KSB, "frag_b")]
                    for nm, ks, e in frs:
                        cmp("nuclear potential of fragment " + nm, ks.vnuc, case[e], pol)
    return bad


def check(ctx):
    c = {"Charges": "{ <<0,1>>, <<1,1>>, <<2,1>>, <<3,1>>, <<7,1>>, <<1,2>>, <<5,4>>, <<9,1>>, <<4,1>>, <<1,8>>, <<20,1>> }"} \
        if ctx.thorough else {}
    cases = ctx.tlc("Nuclear", constants=c, timeout=800, workers=4)
    ctx.run_cases(drive, cases)
