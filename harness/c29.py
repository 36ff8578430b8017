"""C29: relations between whole Kohn-Sham calculations (spec/Symmetry.tla)."""
from symmetry import cases, drive

QUICK = ["ni1", "ni2", "ni3", "ni4", "dft1", "dft2", "dft3", "dft4", "dft5", "gga1", "gga2", "conv1", "conv2"]


def check(ctx):
    c = cases(ctx, QUICK, 4 if ctx.thorough else 2)
    c += cases(ctx, [], 2 if ctx.thorough else 1, 4, range(0, 360, 1 if ctx.thorough else 7))
    ctx.run_cases(drive, c, timeout=600)
