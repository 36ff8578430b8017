"""C23: the partition self-consistency loop (spec/PartScf.tla)."""
import loopctl
from lattice import Cmp
from partscf import execute, state, tag


def drive(case):
    cmp = Cmp(tag(case))
    part, warned = execute(case)
    state(case, part, cmp)
    for i, (w, d) in enumerate(zip(warned, case["done"])):
        if w != d["cut"]:
            cmp.bad.append("call %d %s of the iteration limit after %d cycles (%s)" % (
                i + 1, "warned" if w else "did not warn", d["cyc"], cmp.tag))
    if bool(part.optPartition.isolated) != case["iso"]:
        cmp.bad.append("isolated is %r, expected %s (%s)" % (part.optPartition.isolated, case["iso"], cmp.tag))
    return cmp.bad[:4]


def check(ctx):
    cases = ctx.tlc("PartScf", constants={"Configs": "<- AllConfigs" if ctx.tier == "thorough" else "<- SomeConfigs"},
                    timeout=3000, workers=8)
    for i, c in enumerate(cases):
        c["i"] = i
    ctx.run_cases(drive, cases)
    loopctl.run(ctx, loopctl.drive_part)
