"""C19 (spec/PartOps.tla)."""
from partops import part_energies, run


def drive(case):
    return run(case, part_energies)


def check(ctx):
    cases = ctx.tlc("PartOps", constants={"Configs": "<- MoreEnergy" if ctx.thorough else "<- ConfigsEnergy"}, timeout=800, workers=8)
    ctx.run_cases(drive, cases)
