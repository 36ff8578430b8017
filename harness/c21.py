"""C21 (spec/PartOps.tla)."""
from partops import part_kinetic, run


def drive(case):
    return run(case, part_kinetic)


def check(ctx):
    cases = ctx.tlc("PartOps", constants={"Configs": "<- MoreKin" if ctx.thorough else "<- ConfigsKin"}, timeout=800, workers=8)
    ctx.run_cases(drive, cases)
