"""C17 (spec/PartOps.tla)."""
from partops import part_shares, run


def drive(case):
    return run(case, part_shares)


def check(ctx):
    cases = ctx.tlc("PartOps", constants={"Configs": "<- MoreEns" if ctx.thorough else "<- ConfigsEns"}, timeout=800, workers=8)
    ctx.run_cases(drive, cases)
