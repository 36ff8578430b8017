"""C22 (spec/PartOps.tla)."""
from partops import part_hxc, run


def drive(case):
    return run(case, part_hxc)


def check(ctx):
    cases = ctx.tlc("PartOps", constants={"Configs": "<- MoreHxc" if ctx.thorough else "<- ConfigsHxc"}, timeout=800, workers=8)
    ctx.run_cases(drive, cases)
