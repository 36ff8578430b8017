"""Stand-in for pylibxc, which is not installed here.

Real functionals (closed forms): 1 LDA_X, 12 LDA_C_PW, 101 GGA_X_PBE, 500 GGA_K_VW.
Coded functionals (ids >= 9000), used to drive the specification's abstract
densities through the code under test with exactly known results:

  9000..9099  site-coded LDA: see CODED; acts on k = rho * SITE_W, snapped to 2^-20
  9100..9199  analytic test GGAs/LDAs, deliberately asymmetric in their inputs

LOG, when a list, records every compute() call (id, pol, keys, shapes).
"""
import numpy as np

SITE_W = None          # site weights of the current lattice
LOG = None

# id -> (e0, e1,  a, b, c):   eps = e0 + e1*K,  v_s = a*k_s + b*k_other + c
CODED = {
    9001: (1, 1, 2, 1, 0),
    9002: (0, 2, 3, 5, 1),
    9003: (2, 0, 1, 0, 3),
    9004: (1, 3, 4, 2, 1),
}


def snap(x):
    return np.round(np.asarray(x, dtype=float) * 2.0**20) / 2.0**20


def _lda_x(n):
    c = -0.75 * (3 / np.pi) ** (1 / 3)
    return c * n ** (4 / 3), 4 / 3 * c * n ** (1 / 3)


def _pw_g(rs, A, a1, b1, b2, b3, b4):
    q0 = -2 * A * (1 + a1 * rs)
    s = np.sqrt(rs)
    q1 = 2 * A * (b1 * s + b2 * rs + b3 * rs * s + b4 * rs * rs)
    q1p = A * (b1 / s + 2 * b2 + 3 * b3 * s + 4 * b4 * rs)
    lg = np.log1p(1 / q1)
    return q0 * lg, -2 * A * a1 * lg - q0 * q1p / (q1 * q1 + q1)


def _lda_c_pw(nu, nd):
    n = nu + nd
    rs = (3 / (4 * np.pi * n)) ** (1 / 3)
    z = (nu - nd) / n
    ec0, d0 = _pw_g(rs, 0.031091, 0.21370, 7.5957, 3.5876, 1.6382, 0.49294)
    ec1, d1 = _pw_g(rs, 0.015545, 0.20548, 14.1189, 6.1977, 3.3662, 0.62517)
    ac, da = _pw_g(rs, 0.016887, 0.11125, 10.357, 3.6231, 0.88026, 0.49671)
    ac, da = -ac, -da
    fz2 = 1.709921
    den = 2 ** (4 / 3) - 2
    f = ((1 + z) ** (4 / 3) + (1 - z) ** (4 / 3) - 2) / den
    fp = 4 / 3 * ((1 + z) ** (1 / 3) - (1 - z) ** (1 / 3)) / den
    z4 = z ** 4
    ec = ec0 + ac * f / fz2 * (1 - z4) + (ec1 - ec0) * f * z4
    drs = d0 * (1 - f * z4) + d1 * f * z4 + da * f / fz2 * (1 - z4)
    dz = 4 * z ** 3 * f * (ec1 - ec0 - ac / fz2) + fp * (z4 * (ec1 - ec0) + (1 - z4) * ac / fz2)
    com = ec - rs / 3 * drs
    return ec, com - (z - 1) * dz, com - (z + 1) * dz


def _pbe_x(n, s):
    mu, ka = 0.2195149727645171, 0.804
    kf = (3 * np.pi ** 2) ** (1 / 3)
    c = -0.75 * (3 / np.pi) ** (1 / 3)
    s2 = s / (4 * kf ** 2 * n ** (8 / 3))
    den = 1 + mu * s2 / ka
    F = 1 + ka - ka / den
    Fp = mu / den ** 2
    e = c * n ** (4 / 3) * F
    return e, 4 / 3 * c * n ** (1 / 3) * (F - 2 * s2 * Fp), c * n ** (4 / 3) * Fp * s2 / np.where(s == 0, 1, s) \
        + np.where(s == 0, c * n ** (4 / 3) * mu / (4 * kf ** 2 * n ** (8 / 3)), 0)


class LibXCFunctional:
    def __init__(self, func_name, spin, omega=None):
        known = {1, 12, 101, 500} | set(CODED) | {9100, 9101, 9102, 9110}
        alias = {"lda_x": 1, "lda_c_pw": 12, "gga_x_pbe": 101, "gga_k_vw": 500}
        if isinstance(func_name, str):
            func_name = alias.get(func_name.lower(), func_name)
        fid = int(func_name)
        if fid not in known:
            raise KeyError("LibXCFunctional: ID supplied, %r not found." % (func_name,))
        self.fid = fid
        try:
            self.pol = {1: 1, 2: 2, "unpolarized": 1, "polarized": 2}[spin]
        except KeyError:
            raise KeyError("LibXCFunctional: Spin must either be 'polarized' or 'unpolarized'")

    def compute(self, inp, output=None, do_exc=True, do_vxc=True, **kw):
        if not isinstance(inp, dict):
            inp = {"rho": inp}
        rho = np.asarray(inp["rho"], dtype=float)
        rho = rho.reshape(-1, self.pol)
        sig = inp.get("sigma")
        if LOG is not None:
            LOG.append({"id": self.fid, "pol": self.pol, "keys": sorted(inp)})
        fid, pol = self.fid, self.pol
        gga = fid in (101, 500, 9101, 9102, 9110)
        if gga:
            if sig is None:
                raise ValueError("A Libxc GGA functional requires a sigma input.")
            sig = np.asarray(sig, dtype=float).reshape(-1, 1 if pol == 1 else 3)
        with np.errstate(all="ignore"):
            zk, vr, vs = self._eval(fid, pol, rho, sig)
        out = {"zk": zk.reshape(-1, 1), "vrho": np.ascontiguousarray(vr).reshape(-1, pol)}
        if gga:
            out["vsigma"] = np.ascontiguousarray(vs).reshape(-1, 1 if pol == 1 else 3)
        return out

    def _eval(self, fid, pol, rho, sig):
        if fid in CODED:
            e0, e1, a, b, c = CODED[fid]
            k = snap(rho * np.asarray(SITE_W)[:, None])
            K = k.sum(1)
            if pol == 1:
                return e0 + e1 * K, a * k / 2 + b * k / 2 + c, None
            return e0 + e1 * K, a * k + b * k[:, ::-1] + c, None
        if fid == 9100:      # asymmetric LDA
            if pol == 1:
                return 0.3 + 0.7 * rho[:, 0], 1.1 + 0.25 * rho ** 2, None
            u, d = rho[:, 0], rho[:, 1]
            return 0.3 + 0.7 * u - 0.2 * d * u, np.stack([1.1 + 0.25 * u * u + d, -0.4 + u * 2 - d], 1), None
        if fid in (9101, 9102):   # asymmetric GGA;  9102 has vrho = 0
            z = 0.0 if fid == 9102 else 1.0
            if pol == 1:
                return (0.2 + 0.5 * rho[:, 0] + 0.01 * sig[:, 0], z * (0.7 + 0.3 * rho),
                        0.9 + 0.4 * rho + 0.02 * sig)
            u, d = rho[:, 0], rho[:, 1]
            uu, ud, dd = sig[:, 0], sig[:, 1], sig[:, 2]
            return (0.2 + 0.5 * u - 0.1 * d + 0.01 * uu + 0.02 * ud - 0.03 * dd,
                    z * np.stack([0.7 + 0.3 * u + d, 0.1 - u + 0.6 * d], 1),
                    np.stack([0.9 + 0.4 * u + 0.02 * uu, -0.3 + 0.2 * d + 0.05 * ud, 0.35 + u * d + 0.01 * dd], 1))
        if fid == 9110:      # spin-symmetric GGA
            if pol == 1:
                rho = np.repeat(rho / 2, 2, axis=1)
                s = sig[:, 0] / 4
                sig = np.stack([s, s, s], 1)
            u, d = rho[:, 0], rho[:, 1]
            uu, ud, dd = sig[:, 0], sig[:, 1], sig[:, 2]
            zk = 0.2 + 0.5 * (u + d) + 0.01 * (uu + dd) + 0.03 * ud
            vr = np.stack([0.7 + 0.3 * u + d, 0.7 + 0.3 * d + u], 1)
            vs = np.stack([0.9 + 0.4 * u, 0.3 + 0.2 * (u + d), 0.9 + 0.4 * d], 1)
            if pol == 1:
                return zk, vr[:, :1], (vs[:, :1] * 2 + vs[:, 1:2]) / 4
            return zk, vr, vs
        r = np.maximum(rho, 1e-30)
        n = r.sum(1)
        if fid == 1:
            if pol == 1:
                e, v = _lda_x(r[:, 0])
                return e / n, v[:, None], None
            e, v = _lda_x(2 * r)
            return e.sum(1) / 2 / n, v, None
        if fid == 12:
            if pol == 1:
                e, v, _ = _lda_c_pw(r[:, 0] / 2, r[:, 0] / 2)
                return e, v[:, None], None
            e, va, vb = _lda_c_pw(r[:, 0], r[:, 1])
            return e, np.stack([va, vb], 1), None
        if fid == 101:
            if pol == 1:
                e, v, s = _pbe_x(r[:, 0], sig[:, 0])
                return e / n, v[:, None], s[:, None]
            eu, vu, su = _pbe_x(2 * r[:, 0], 4 * sig[:, 0])
            ed, vd, sd = _pbe_x(2 * r[:, 1], 4 * sig[:, 2])
            return (eu + ed) / 2 / n, np.stack([vu, vd], 1), np.stack([2 * su, 0 * su, 2 * sd], 1)
        if fid == 500:
            if pol == 1:
                m = r[:, 0]
                s = sig[:, 0]
                return s / 8 / m / m, (-s / 8 / m / m)[:, None], (1 / 8 / m)[:, None]
            u, d = r[:, 0], r[:, 1]
            uu, dd = sig[:, 0], sig[:, 2]
            return ((uu / 8 / u + dd / 8 / d) / n, np.stack([-uu / 8 / u / u, -dd / 8 / d / d], 1),
                    np.stack([1 / 8 / u, 0 * u, 1 / 8 / d], 1))
        raise KeyError(fid)
