"""Metrics for geodesics in units c = G = M = 1, signature -+++: the built-in ones and user-supplied callables, each with
an independent symbolic reference (contravariant metric, its derivatives, Hamilton's equations)."""
import functools

import numpy as np
import sympy as sp
from scipy.integrate import solve_ivp

from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.geodesic.utils import _kerr, _kerrnewman, _sch
from einsteinpy.integrators import GeodesicIntegrator

T, R, TH, PH = sp.symbols("t r th ph", real=True)
Q4 = (T, R, TH, PH)


def _f(name):
    n, s = getattr(np, name), getattr(sp, name)
    return lambda x: s(x) if isinstance(x, sp.Basic) else n(x)


sin, cos, exp, log, tan = (_f(n) for n in ("sin", "cos", "exp", "log", "tan"))


# ---- user metrics: plain functions of (x, *params), as a user would write them
def _mat(d):
    g = np.zeros((4, 4), dtype=object)
    for (i, j), v in d.items():
        g[i, j] = g[j, i] = v
    return g


def flat(x, *p):
    return _mat({(0, 0): -1.0, (1, 1): 1.0, (2, 2): 1.0, (3, 3): 1.0})


def sheared(x, *p):
    return _mat({(0, 0): -1.2, (1, 1): 1.3, (2, 2): 0.9, (3, 3): 1.1, (0, 1): 0.2, (0, 2): -0.15, (0, 3): 0.1, (1, 2): 0.25, (1, 3): -0.3, (2, 3): 0.35})


def painleve(x, *p):
    """Gullstrand-Painleve form of Schwarzschild"""
    r = x[1]
    return _mat({(0, 0): -1.0, (0, 1): (2 / r) ** 0.5, (1, 1): 1 - 2 / r, (2, 2): 1 / r ** 2, (3, 3): 1 / (r * sin(x[2])) ** 2})


def wavy(x, *p):
    """every entry depends on every coordinate; no symmetry at all; p[0] is the amplitude"""
    e = p[0]
    a = sin(x[0] * 0.3 + x[1] * 0.7 + x[2] * 0.4 - x[3] * 0.5)
    b = cos(x[0] * 0.6 - x[1] * 0.2 + x[2] * 0.8 + x[3] * 0.3)
    w = [(1, .2), (.3, -1), (-.7, .5), (.9, .4), (.2, .8), (-1, .6), (.5, .5), (1, -.3), (-.4, .9), (.8, -.8)]
    d, n = {}, 0
    for i in range(4):
        for j in range(i, 4):
            d[(i, j)] = (e * w[n][0]) * a + (e * w[n][1]) * b + ((-1.0 if i == 0 else 1.0) if i == j else 0.0)
            n += 1
    return _mat(d)


def expanding(x, *p):
    """spatially flat universe a(t) = exp(h t) in Cartesian coordinates"""
    a = exp(-2 * p[0] * x[0])
    return _mat({(0, 0): -1.0, (1, 1): a, (2, 2): a, (3, 3): a})


def rindler(x, *p):
    return _mat({(0, 0): -1 / x[1] ** 2, (1, 1): 1.0, (2, 2): 1.0, (3, 3): 1.0})


USER = {"flat": (flat, ()), "sheared": (sheared, ()), "painleve": (painleve, ()), "wavy": (wavy, (0.11,)), "expanding": (expanding, (0.05,)),
        "rindler": (rindler, ())}


# ---- symbolic references
def _bh(a, Q):
    """inverse of the Kerr-Newman line element, -+++"""
    S = R ** 2 + a ** 2 * sp.cos(TH) ** 2
    D = R ** 2 - 2 * R + a ** 2 + Q ** 2
    s2 = sp.sin(TH) ** 2
    # tetrad form of the inverse: e1 = ((r^2+a^2) d_t + a d_ph)/sqrt(S D), e2 = (d_ph + a s2 d_t)/(sqrt(S) sin)
    v1 = sp.Matrix([R ** 2 + a ** 2, 0, 0, a])
    v2 = sp.Matrix([a * s2, 0, 0, 1])
    g = -v1 * v1.T / (S * D) + v2 * v2.T / (S * s2)
    g[1, 1] = D / S
    g[2, 2] = 1 / S
    return g


class GRef:
    def __init__(self, g):
        self.sym = sp.Matrix(4, 4, lambda i, j: sp.sympify(g[i, j]))
        self._g = sp.lambdify(Q4, self.sym, "numpy")
        self._d = [sp.lambdify(Q4, self.sym.diff(v), "numpy") for v in Q4]
        self._gm = None

    def g(self, q):
        return np.array(self._g(*[float(x) for x in q]), dtype=float)

    def g_mp(self, q):
        import mpmath as mp
        if self._gm is None:
            self._gm = sp.lambdify(Q4, self.sym, "mpmath")
        return self._gm(*[mp.mpf(float(x)) for x in q])

    def dg(self, q):
        """[k,i,j]"""
        q = [float(x) for x in q]
        return np.array([np.array(d(*q), dtype=float) for d in self._d])

    def rhs(self, t, y):
        q, p = y[:4], y[4:]
        return np.concatenate((self.g(q) @ p, -0.5 * np.einsum("kij,i,j->k", self.dg(q), p, p)))

    def flow(self, q, p, T):
        """the exact geodesic after parameter time T"""
        s = solve_ivp(self.rhs, (0, T), np.concatenate((q, p)), method="DOP853", rtol=1e-13, atol=1e-14)
        assert s.success
        return s.y[:, -1]


@functools.lru_cache(maxsize=None)
def ref(kind, prm):
    if kind == "Schwarzschild":
        return GRef(_bh(0, 0))
    if kind == "Kerr":
        return GRef(_bh(sp.Float(prm[0], 30) if prm[0] else 0, 0))
    if kind == "KerrNewman":
        return GRef(_bh(*[sp.Float(x, 30) if x else 0 for x in prm]))
    return GRef(USER[kind][0](Q4, *prm))


FUN = {"Schwarzschild": _sch, "Kerr": _kerr, "KerrNewman": _kerrnewman}


def fun(kind):
    return FUN.get(kind) or USER[kind][0]


def named():
    """(metric name, parameters) of the built-in metrics"""
    out = [("Schwarzschild", ())]
    for a in (0.0, 0.3, 0.9, 0.998, 1.0, -0.5):
        out.append(("Kerr", (a,)))
    for a, Q in ((0.0, 0.0), (0.0, 0.5), (0.0, 1.0), (0.6, 0.0), (0.6, 0.3), (0.6, -0.3), (0.3, 0.9), (0.9, 0.4), (-0.4, 0.5)):
        out.append(("KerrNewman", (a, Q)))
    return out


def label(kind, prm):
    return "%s%s" % (kind, "(%s)" % ",".join("%g" % x for x in prm) if prm else "")


def integrate(f, prm, q0, p0, n, delta, order, omega, time_like=True, **kw):
    """n steps of the integrator; all states (q1, p1, q2, p2)"""
    gi = GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(q0, dtype=float), p0=np.array(p0, dtype=float), time_like=time_like, steps=n,
                            delta=delta, order=order, omega=omega, suppress_warnings=kw.pop("suppress_warnings", True), **kw)
    for _ in range(n):
        gi.step()
    return [np.array([np.asarray(z, dtype=float) for z in s]) for s in gi.results]
