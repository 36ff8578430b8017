"""C25: quantities derived from an inversion (spec/Inversion.tla)."""
import numpy as np
from invops import arr, q, replay


def derived(s, step, cmp):
    c, inv = s.c, s.inv
    done = set(step["good"])
    every = done == set(range(1, s.pol + 1)) or (c["ess"] and 1 in done)
    if not every:
        return
    ts = [q(x) for x in c["ts"]]
    ked = arr(c["ked"])
    for again in (1, 2):
        vt = np.asarray(inv.get_vt())
        for p in done:
            cmp("kinetic potential of spin %d" % p, vt[:, p - 1], s.vt[:, p - 1], 3e-5)
        T = inv.get_Ts()
        cmp("kinetic energy", T, sum(ts), 3e-5)
        k = np.asarray(inv.get_ts_WFI())
        if cmp("kinetic energy density", k, ked, 3e-5):
            cmp("integral of the kinetic energy density", s.g.integrate(k.sum(axis=1)), T, 3e-5)
    if c["ess"] and not (c["meth"] == "wuyang"):
        return
    # constants: the highest occupied level of the potential
    for p in done:
        cmp("constant of the kinetic potential of spin %d" % p,
            vt[:, p - 1] + inv.vs[:, p - 1], np.full(6, s.lowest(inv.vs[:, p - 1], p - 1)[1]), 3e-5)


class Drive:
    __name__ = "inversion session"

    def __init__(self, each, seed):
        self.each, self.seed = each, seed

    def __call__(self, case):
        return replay(case, self.each, self.seed)


def check(ctx):
    progs = "SomePrograms"
    cases = ctx.tlc("Inversion", constants={"Systems": "<- MoreSystems" if ctx.thorough else "<- SomeSystems",
                                            "Programs": "<- " + progs}, timeout=800, workers=8)
    ctx.run_cases(Drive(derived, ctx.seed), cases)
