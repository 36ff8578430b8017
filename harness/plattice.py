"""Real Partition objects on the exact lattice (spec/PartModel.tla)."""
import numpy as np
from lattice import LatHartree, graft, grid, q

HM = [[2, 1, 0, 1, 0, -1], [1, 3, 1, 0, 1, 0], [0, 1, 2, -1, 0, 1],
      [1, 0, -1, 4, 1, 0], [0, 1, 0, 1, 5, 1], [-1, 0, 1, 0, 1, 4]]


def num(k4):
    return k4 / 4 if k4 % 4 else k4 // 4


def frags(part):
    return [part.KSa, part.KSA, part.KSb, part.KSB] if part.ens else [part.KSa, part.KSb]


def make(pol, za, zb, nmo, n4, nu, opt, nuc, hmat=HM, uniform=True):
    """nmo, n4: per side, list of members (one, or two for an ensemble);
    nuc: per side, one column of site potentials (None: the package's own)"""
    from CADMium import Partition
    g, W = grid(uniform)
    N = [[[[num(k) for k in row] for row in mem] for mem in side] for side in n4]
    Nmo = nmo
    if nu[0] == 1 and nu[1] == 1:
        N, Nmo = [s[0] for s in N], [s[0] for s in nmo]
    o = {"xfunc_id": 9001, "cfunc_id": 9002, "xc_family": "lda", "k_family": "lda", "ke_func_id": 9003,
         "kinetic_part_type": "libxcke"}
    o.update(opt)
    part = Partition(g, za, zb, pol, Nmo[0], N[0], nu[0], Nmo[1], N[1], nu[1], o)
    if nuc is not None:
        part.va, part.vb = np.array(nuc[0], dtype=float), np.array(nuc[1], dtype=float)
        part.V.vext = np.stack([part.va + part.vb] * pol, axis=1)
    if not isinstance(part.hartree, float):
        part.hartree = LatHartree(hmat, W)
    for k in frags(part):
        side = 0 if k is part.KSa or (part.ens and k is part.KSA) else 1
        v = None if nuc is None else np.stack([np.array(nuc[side], dtype=float)] * pol, axis=1)
        graft(k, hmat, W, v)
    return part
