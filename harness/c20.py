"""C20 (spec/PartOps.tla)."""
from partops import part_potential, run


def drive(case):
    return run(case, part_potential)


def check(ctx):
    cases = ctx.tlc("PartOps", constants={"Configs": "<- MorePot" if ctx.thorough else "<- ConfigsPot"}, timeout=800, workers=8)
    ctx.run_cases(drive, cases)
