"""The exact lattice model of spec/KSModel.tla, grafted onto the real objects.

Real grid, real Kohnsham / Partition / Inverter objects; their orbital solvers,
functionals and Hartree potential are replaced by the abstract ones of the
specification, so that every number the code computes is predicted exactly.
"""
import numpy as np

SNAP = 2.0 ** 20
_G = {}


def snap(x):
    return np.round(np.asarray(x, dtype=float) * SNAP) / SNAP


def grid(uniform=False, shape=(2, 2, 1)):
    """tiny real grid; uniform: all integration weights replaced by equal ones;
    uniform = ("weiz", wsq, lmat): volume elements wsq**2 and the Laplacian lmat"""
    key = (uniform, shape)
    if key not in _G:
        from CADMium import Psgrid
        g = Psgrid(shape[0], [shape[1], shape[2]], 1.25, 1.6, np.array([-1, 0, 1]))
        g.initialize()
        g.operators()
        if isinstance(uniform, tuple):
            from scipy.sparse import csc_matrix
            g.w = np.array(uniform[1], dtype=float) ** 2
            g.wi = 0.75 * np.ones_like(g.wi) / (2 * np.pi * g.ha * g.hr)
            g.elap = csc_matrix(np.array(uniform[2], dtype=float))
        elif uniform:
            g.w = np.ones_like(g.w)
            g.wi = 0.75 * np.ones_like(g.wi) / (2 * np.pi * g.ha * g.hr)
        W = np.array([g.integrate(e) for e in np.eye(g.Nelem)])
        _G[key] = (g, W)
    g, W = _G[key]
    import pylibxc
    pylibxc.SITE_W = W
    return g, W


def q(x):
    return x[0] / x[1]


def arr(f):
    """field of rationals (spin, site) -> array (site, spin)"""
    return np.array([[q(x) for x in col] for col in f]).T.copy()


def dens(f, W):
    """lattice density -> density on the grid"""
    return arr(f) / W[:, None]


def ranked(v):
    v = np.round(np.asarray(v, dtype=float) * 2.0 ** 30) / 2.0 ** 30
    return v, np.lexsort((np.arange(len(v)), v))


def orbitals(v, nmo, m, it, n, W=None):
    """scripted orbitals of a solver in the potential v"""
    v, order = ranked(v)
    phi = np.zeros((n, nmo))
    eig = np.zeros(nmo)
    for k in range(nmo):
        s = order[(k + m) % n]
        phi[s, k] = (-1) ** k * (0.5 + 0.25 * k + 0.125 * m)
        eig[k] = v[s] + 1 + m + (0.5 if it else 0)
    return eig, phi


def solver_class():
    """subclass of the package's solver with scripted orbital solutions"""
    from CADMium.pssolver import pssolver as ps

    class LatSolver(ps.i_solver):
        def _orb(self, it, solver_id, return_dict):
            if self.Nmo != 0:
                self.eig, self.phi = orbitals(np.ravel(self.veff), int(self.Nmo), self.m, it, self.grid.Nelem)
                hook = getattr(self, "lat_hook", None)
                if hook:
                    hook(self, solver_id, it)
                if return_dict is not None:
                    return_dict[solver_id] = [self.eig, self.phi]
            else:
                ps.i_solver.calc_orbitals(self, solver_id, return_dict)

        def calc_orbitals(self, solver_id=None, return_dict=None):
            self._orb(False, solver_id, return_dict)

        def iter_orbitals(self, solver_id=None, return_dict=None):
            self._orb(True, solver_id, return_dict)

        def calc_ked_WFI(self):
            """kinetic energy density of the orbitals: 1 + m per electron"""
            if self.Nmo != 0:
                self.ked_WFI = np.zeros((self.grid.Nelem, 1))
                self.ked_WFI[:, 0] = (1 + self.m) * np.ravel(self.n)

    return LatSolver


class LatHartree:
    def __init__(self, hmat, W):
        self.M, self.W = np.array(hmat, dtype=float), W

    def v_hartree(self, n):
        n = np.asarray(n)
        t = snap((n.sum(axis=1) if n.ndim == 2 else n) * self.W)
        vh = self.M @ t
        return np.stack([vh] * (n.shape[1] if n.ndim == 2 else 1), axis=1)

    def e_hartree(self, n):
        return 0.5 * self.v_hartree(n)


def graft(ks, hmat, W, nuc=None, solvers=True):
    """replace the numerical parts of a Kohnsham object by the lattice model"""
    if solvers:
        cls = solver_class()
        for s in np.asarray(ks.solver, dtype=object).ravel():
            s.__class__ = cls
    if not isinstance(ks.hartree, float):
        ks.hartree = LatHartree(hmat, W)
    if nuc is not None:
        ks.vnuc = nuc.copy()
    return ks


def make_ks(c, hmat, g, W, nuc=True, extra=None):
    from CADMium import Kohnsham
    N = [[k / 4 if k % 4 else k // 4 for k in row] for row in c["n4"]]
    frac = any(k % (4 * cap(c["pol"], r)) for r, row in enumerate(c["n4"]) for k in row)
    opt = {"interaction_type": c["type"], "sym": c["sym"], "fractional": frac,
           "xfunc_id": 9001, "cfunc_id": 9002, "xc_family": "lda"}
    opt.update(extra or {})
    ks = Kohnsham(g, c["za"], c["zb"], c["pol"], c["nmo"], N, opt)
    return graft(ks, hmat, W, arr(c["nuc"]) if nuc else None)


def cap(pol, m):
    return (2 if pol == 1 else 1) * (1 if m == 0 else 2)


def level(x):
    """-1/eps in the code stands for the specification's NegInf"""
    x = q(x)
    return -1 / np.finfo(float).eps if x <= -1e9 else x


class Cmp:
    """collects differences"""

    def __init__(self, tag):
        self.bad, self.tag = [], tag

    def __call__(self, name, got, want, tol=1e-7):
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.bad.append("%s is %r, expected numbers %s (%s)" % (name, got, want, self.tag))
            return False
        if g.size != w.size or (g.ndim and w.ndim and np.squeeze(g).shape != np.squeeze(w).shape):
            self.bad.append("%s has shape %s, expected %s (%s)" % (name, g.shape, w.shape, self.tag))
            return False
        g, w = np.squeeze(g), np.squeeze(w)
        if not np.all(np.abs(g - w) <= tol * (1 + np.abs(w))):
            self.bad.append("%s = %s, expected %s (%s)" % (
                name, np.ravel(g)[:8].tolist(), np.ravel(w)[:8].tolist(), self.tag))
            return False
        return True
