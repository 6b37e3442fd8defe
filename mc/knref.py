"""Reference model for the numerical Kerr-Newman family (Schwarzschild, Kerr are members), written from the line element
    ds^2 = (D/S)(c dt - al sin^2 dphi)^2 - (sin^2/S)((r^2+al^2) dphi - al c dt)^2 - (S/D) dr^2 - S dth^2
and evaluated with 40 digits. Derivatives come from automatic differentiation of these formulas (symbolic, once)."""
import functools
import itertools

import mpmath as mp
import numpy as np
import sympy as sp

mp.mp.dps = 40
C = mp.mpf(299792458)
G = mp.mpf("6.6743e-11")
KE = mp.mpf("8.9875517923e9")


def consts():
    """the constants the code uses, after checking them against the literature"""
    from einsteinpy import constant
    c, g, k = float(constant.c.value), float(constant.G.value), float(constant.coulombs_const.value)
    assert c == float(C) and abs(g / float(G) - 1) < 1e-3 and abs(k / float(KE) - 1) < 1e-6, (c, g, k)
    return mp.mpf(c), mp.mpf(g), mp.mpf(k)


_r, _th, _m, _al, _q2, _c = sp.symbols("r th m al q2 c")


def _build():
    S = _r ** 2 + _al ** 2 * sp.cos(_th) ** 2
    D = _r ** 2 - 2 * _m * _r + _al ** 2 + _q2
    s2 = sp.sin(_th) ** 2
    e1 = sp.Matrix([_c, 0, 0, -_al * s2])
    e2 = sp.Matrix([-_al * _c, 0, 0, _r ** 2 + _al ** 2])
    g = (D / S) * e1 * e1.T - (s2 / S) * e2 * e2.T
    g[1, 1] = -S / D
    g[2, 2] = -S
    A = sp.Symbol("Q") * _r / S * sp.Matrix([1, 0, 0, -_al * s2])
    return g, A


_g, _A = _build()
_args = (_r, _th, _m, _al, _q2, _c)
_dA = {(m, i): sp.diff(_A[i], (None, _r, _th, None)[m]) for m in (1, 2) for i in (0, 3)}
_NZ = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 3)]
_gl = {ij: sp.lambdify(_args, _g[ij], "mpmath") for ij in _NZ}
_dgl = {(k, ij): sp.lambdify(_args, sp.diff(_g[ij], v), "mpmath") for ij in _NZ for k, v in ((1, _r), (2, _th))}
_Al = {i: sp.lambdify((_r, _th, _al, sp.Symbol("Q")), _A[i], "mpmath") for i in (0, 3)}
_dAl = {k: sp.lambdify((_r, _th, _al, sp.Symbol("Q")), e, "mpmath") for k, e in _dA.items()}


class Ref:
    """everything at one point: M [kg], a [1], Q [C], r [m], th [rad]; SI conventions of einsteinpy (g_tt carries c^2).
    With units="M" the same metric in units G=c=M=1 (Q geometrized)."""

    def __init__(self, M, a, Q, r, th, si=True):
        if si:
            c, g, k = consts()
            self.m = mp.mpf(M) * g / c ** 2
            self.rq = mp.mpf(Q) * mp.sqrt(g * k) / c ** 2
        else:
            c = mp.mpf(1)
            self.m, self.rq = mp.mpf(M), mp.mpf(Q)
        self.c = c
        self.al = mp.mpf(a) * self.m
        self.r, self.th = mp.mpf(r), mp.mpf(th)
        self.args = (self.r, self.th, self.m, self.al, self.rq ** 2, c)

    @functools.cached_property
    def g(self):
        g = mp.zeros(4)
        for (i, j), f in _gl.items():
            g[i, j] = g[j, i] = f(*self.args)
        return g

    @functools.cached_property
    def ginv(self):
        g = self.g
        det = g[0, 0] * g[3, 3] - g[0, 3] ** 2
        o = mp.zeros(4)
        o[0, 0], o[3, 3] = g[3, 3] / det, g[0, 0] / det
        o[0, 3] = o[3, 0] = -g[0, 3] / det
        o[1, 1], o[2, 2] = 1 / g[1, 1], 1 / g[2, 2]
        return o

    @functools.cached_property
    def dg(self):
        d = [[[mp.mpf(0)] * 4 for _ in range(4)] for _ in range(4)]
        for (k, (i, j)), f in _dgl.items():
            d[k][i][j] = d[k][j][i] = f(*self.args)
        return d

    @functools.cached_property
    def gamma(self):
        gi, d = self.ginv, self.dg
        low = [[[(d[l][i][k] + d[k][i][l] - d[i][k][l]) / 2 for l in range(4)] for k in range(4)] for i in range(4)]
        return [[[mp.fsum(gi[i, s] * low[s][k][l] for s in range(4)) for l in range(4)] for k in range(4)] for i in range(4)]

    @functools.cached_property
    def A(self):
        v = [mp.mpf(0)] * 4
        for i, f in _Al.items():
            v[i] = f(self.r, self.th, self.al, self.rq)
        return v

    @functools.cached_property
    def F(self):
        """F_mn = d_m A_n - d_n A_m"""
        o = [[mp.mpf(0)] * 4 for _ in range(4)]
        for (m, n), f in _dAl.items():
            v = f(self.r, self.th, self.al, self.rq)
            o[m][n] += v
            o[n][m] -= v
        return o

    @functools.cached_property
    def Fup(self):
        gi, F = self.ginv, self.F
        return [[mp.fsum(gi[i, a] * F[a][b] * gi[b, j] for a in range(4) for b in range(4)) for j in range(4)] for i in range(4)]

    def accel(self, u):
        """-Gamma u u"""
        u = [mp.mpf(float(v)) for v in u]
        gm = self.gamma
        return [-mp.fsum(gm[i][k][l] * u[k] * u[l] for k in range(4) for l in range(4)) for i in range(4)]

    def accel_scale(self, u):
        u = [mp.mpf(float(v)) for v in u]
        gm = self.gamma
        return [mp.fsum(abs(gm[i][k][l] * u[k] * u[l]) for k in range(4) for l in range(4)) for i in range(4)]

    def norm(self, u):
        u = [mp.mpf(float(v)) for v in u]
        g = self.g
        return mp.fsum(g[i, j] * u[i] * u[j] for i in range(4) for j in range(4))


def farr(o):
    if isinstance(o, mp.matrix):
        return np.array([[float(o[i, j]) for j in range(o.cols)] for i in range(o.rows)])
    return np.array([[float(x) if not isinstance(x, list) else [float(y) for y in x] for x in row] if isinstance(row, list) else float(row) for row in o])


def units4(r, c):
    """natural size of dx^i: (r/c, r, 1, 1) -- used to compare components on one scale"""
    return np.array([float(r) / float(c), float(r), 1.0, 1.0])


def rel(got, want, scale):
    """largest difference in units of the natural size of each component"""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return float("inf")
    d = np.abs(got - want) / scale
    return float("inf") if not np.all(np.isfinite(got)) else float(np.max(d))
