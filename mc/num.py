"""Alphabet of numerical metrics shared by several checks"""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy.coordinates import SphericalDifferential, BoyerLindquistDifferential, CartesianDifferential
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from mc import knref
from mc.knref import rel, units4

MSUN = 1.9885e30
MASSES = {"sun": MSUN, "smbh": 4.3e6 * MSUN, "earth": 5.972e24, "stellar": 3e31}
SPINS = (0.0, 0.3, 0.9, 1.0)
QFRAC = (0.0, 0.25, -0.25, 0.45)          # geometrized charge in units of r_s/2, reduced so that a horizon exists
RADII = (1.05, 1.5, 3.0, 10.0, 1e4, 1e8)  # in units of the Schwarzschild radius
INNER = (0.05, 0.3, 0.48, 0.8, 0.97)      # inside the ergosphere, between and below the horizons
THETAS = (1e-5, 0.4, np.pi / 4, 1.1, np.pi / 2, 2.5, np.pi - 1e-4)

BEYOND = [(x, th) for x in (0.3, 1.5, 10.0) for th in (-0.8, 4.0, 7.1)]     # angles a trajectory reaches when it crosses the axis


def sph(t=0., r=1., th=1., ph=0., vr=0., vt=0., vp=0.):
    return SphericalDifferential(t * u.s, r * u.m, th * u.rad, ph * u.rad, vr * u.m / u.s, vt * u.rad / u.s, vp * u.rad / u.s)


def bl(t=0., r=1., th=1., ph=0., vr=0., vt=0., vp=0.):
    return BoyerLindquistDifferential(t * u.s, r * u.m, th * u.rad, ph * u.rad, vr * u.m / u.s, vt * u.rad / u.s, vp * u.rad / u.s)


def cart(t=0., x=1., y=1., z=1., vx=0., vy=0., vz=0.):
    return CartesianDifferential(t * u.s, x * u.m, y * u.m, z * u.m, vx * u.m / u.s, vy * u.m / u.s, vz * u.m / u.s)


def charge(M, frac):
    """charge in C whose geometrized length is frac * r_s/2"""
    c, G, k = (float(x) for x in knref.consts())
    m = G * M / c ** 2
    return frac * m * c ** 2 / np.sqrt(G * k)


def family():
    """(name, kind, M, a, Q)"""
    out = []
    for mn, M in MASSES.items():
        out.append(("sch:%s" % mn, "sch", M, 0.0, 0.0))
        for a in SPINS:
            out.append(("kerr:%s:a%g" % (mn, a), "kerr", M, a, 0.0))
            for f in QFRAC:
                if a * a + f * f <= 1.0:
                    out.append(("kn:%s:a%g:q%g" % (mn, a, f), "kn", M, a, charge(M, f)))
                else:
                    out.append(("kn:%s:a%g:q%g" % (mn, a, f), "kn", M, a, charge(M, np.sign(f) * np.sqrt(max(0, 1 - a * a)) * 0.99)))
    seen, res = set(), []
    for o in out:
        if o[1:] not in seen:
            seen.add(o[1:])
            res.append(o)
    return res


def make(kind, M, a, Q, coords=None, q=0.0):
    if coords is None:
        coords = sph() if kind == "sch" else bl()
    if kind == "sch":
        return Schwarzschild(coords=coords, M=M * u.kg)
    if kind == "kerr":
        return Kerr(coords=coords, M=M * u.kg, a=a * u.one)
    return KerrNewman(coords=coords, M=M * u.kg, a=a * u.one, Q=Q * u.C, q=q * u.C / u.kg)


def owned(ctx, key, calls):
    """What a call returned belongs to the caller: later calls leave it alone, and what the caller does to it changes no later answer.

    calls: list of (label, thunk); thunks of the same label are the same method at different arguments. All ordered pairs are explored.
    """
    alone = [np.array(t(), dtype=float) for _, t in calls]
    for i, (li, ti) in enumerate(calls):
        for j, (lj, tj) in enumerate(calls):
            a = ti()
            keep = np.array(a, dtype=float)
            b = tj()
            ctx.step(2)
            ctx.state(key, "owned", i, j)
            ctx.check(np.array_equal(np.asarray(a, dtype=float), keep, equal_nan=True), key + ":kept:" + li, lambda: "%s: what %s returned changed when %s was asked for" % (key, li, lj))
            ctx.check(np.allclose(np.asarray(b, dtype=float), alone[j], rtol=1e-12, atol=0, equal_nan=True), key + ":after:" + lj, lambda: "%s: %s answers differently after %s" % (key, lj, li))
            if isinstance(b, np.ndarray) and b.flags.writeable:
                b *= 7.0
                b += 1.0
                c = tj()
                ctx.step()
                ctx.check(np.allclose(np.asarray(c, dtype=float), alone[j], rtol=1e-12, atol=0, equal_nan=True), key + ":shared:" + lj, lambda: "%s: changing what %s returned changes its next answer" % (key, lj))
    ctx.trace()
