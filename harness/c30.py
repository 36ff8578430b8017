"""C30: relations between whole partition calculations (spec/Symmetry.tla)."""
from symmetry import cases, drive

FIXED = ["he_be", "pi", "spins", "equal", "ess", "essab", "ovl", "ovlh", "ens", "ensab", "enss", "pure", "nip", "sdft"]
CONV = ["iso", "isosp", "empty", "emptys", "convp"]


def check(ctx):
    c = cases(ctx, CONV, 3 if ctx.thorough else 1, 2)
    c += cases(ctx, FIXED, 3 if ctx.thorough else 2, 2)
    c += cases(ctx, [], 1, 3, range(0, 4032, 11 if ctx.thorough else 97), "part")
    ctx.run_cases(drive, c, timeout=600)
