"""Runs in its own interpreter: python nojit_worker.py MODE GROUP  (mode: jit, disabled, absent). Pickles results to stdout."""
import itertools
import os
import pickle
import sys
import warnings

mode, group, tier = sys.argv[1:4]
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
if mode == "disabled":
    os.environ["NUMBA_DISABLE_JIT"] = "1"
if mode == "absent":
    sys.modules["numba"] = None
import numpy as np
res, warned = {}, []


def put(key, f, *a, **k):
    try:
        v = f(*a, **k)
        res[key] = [float(x) for x in np.ravel(np.array(v, dtype=float))]
    except Exception as e:
        res[key] = type(e).__name__


with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    import einsteinpy.ijit
    warned = [str(x.message) for x in w if "numba" in str(x.message)]

warnings.simplefilter("ignore")
thorough = tier == "thorough"
if group == "import":
    import einsteinpy, pkgutil, importlib
    for m in sorted(x.name for x in pkgutil.walk_packages(einsteinpy.__path__, "einsteinpy.")):
        put("import:" + m, lambda: importlib.import_module(m) and 0)
    jit = einsteinpy.ijit.jit

    def f(a, b):
        return a * b + a

    def g(n):
        s = 0.0
        for i in range(n):
            s += 1.0 / (1 + i)
        return s
    forms = {"plain": lambda h: jit(h), "call": lambda h: jit()(h), "cache": lambda h: jit(nogil=True)(h), "fast": lambda h: jit(fastmath=False)(h), "twoopts": lambda h: jit(nogil=True, error_model="numpy")(h)}
    for name, deco in forms.items():
        for h, args in ((f, (2.0, 3.5)), (f, (-1.5, 0.0)), (f, (3, 4)), (g, (10,)), (g, (0,))):
            put("form:%s:%s:%s" % (name, h.__name__, args), lambda: deco(h)(*args))
        put("name:%s" % name, lambda: [deco(f).__name__ == "f" and deco(g).__name__ == "g"])
    res["identity"] = [float(jit(f) is f), float(jit()(f) is f), float(jit(nogil=True)(f) is f)] if mode == "absent" else [1.0, 1.0, 1.0]
elif group == "utils":
    from einsteinpy.coordinates import utils as U
    def put2(key, f, *a, **k):
        """with floating-point numbers, and with the whole ones as integers"""
        put(key, f, *a, **k)
        for nm, conv in (("int", int), ("np.int64", np.int64)):
            b = [conv(x) if float(x).is_integer() else x for x in a]
            put((nm,) + key, f, *b, **k)
            if mode == "jit" and isinstance(res[key], list) and isinstance(res[(nm,) + key], list) and not np.allclose(res[key], res[(nm,) + key], rtol=1e-9, atol=0, equal_nan=True):
                res[(nm,) + key] = "differs from the result with floating-point numbers"
    L = (-4.2e7, -3.0, 0.0, 0.5, 2e9, 7e10) + ((-1e12, 1e-3, 77.0) if thorough else ())
    V = (0.0, -2.5, 1e6)
    for x, y, z in itertools.product(L, repeat=3):
        for a in (0.0, 0.3, 3.0, 1e3, 5e8):
            put2(("c2b", x, y, z, a), U.cartesian_to_bl_fast, 1.5, x, y, z, a)
            put2(("c2bv", x, y, z, a), U.cartesian_to_bl_fast, 1.5, x, y, z, a, *(3.0, -2.5, 1e6), velocities_provided=True)
        put2(("c2s", x, y, z), U.cartesian_to_spherical_fast, 1.5, x, y, z)
        for v in itertools.product(V, repeat=3) if thorough else (V, V[::-1], (-2.5, 1e6, 0.)):
            put2(("c2sv", x, y, z, v), U.cartesian_to_spherical_fast, -2.5, x, y, z, *v, velocities_provided=True)
    for r, th, ph in itertools.product((0.0, 0.5, 3.0, 4e7, 2e9), (0.0, 0.1, 1.2, 1.5707963267948966, 2.9), (-3.0, 0.0, 0.7, 3.1)):
        put2(("s2c", r, th, ph), U.spherical_to_cartesian_fast, 1.5, r, th, ph)
        put2(("s2cv", r, th, ph), U.spherical_to_cartesian_fast, 1.5, r, th, ph, 10.0, -0.3, 2.0, velocities_provided=True)
        for a in (0.0, 0.3, 1e3, 5e8):
            put2(("b2c", r, th, ph, a), U.bl_to_cartesian_fast, 1.5, r, th, ph, a)
            put2(("b2cv", r, th, ph, a), U.bl_to_cartesian_fast, 1.5, r, th, ph, a, 10.0, -0.3, 2.0, velocities_provided=True)
    gs = [np.diag([1.0, -1.0, -1.0, -1.0])]
    for k in range(4):
        m = np.diag([1.2, -0.8, -1.1, -0.9])
        for n, (i, j) in enumerate(itertools.combinations(range(4), 2)):
            m[i, j] = m[j, i] = 0.05 * np.sin(1.7 * n + k)
        gs.append(m)
    gs.append(np.array([[0.0, 1.0, 0, 0], [1.0, 0.0, 0, 0], [0, 0, -1.0, 0], [0, 0, 0, -1.0]]))      # null coordinates
    for k, m in enumerate(gs):
        for v in itertools.product((0.0, -1e7, 2e8), repeat=3):
            put(("v0", k, v), U.v0, m, *v)
elif group == "classes":
    import astropy.units as u
    from einsteinpy.coordinates import BoyerLindquist, BoyerLindquistDifferential, Cartesian, CartesianDifferential, Spherical, SphericalDifferential
    from einsteinpy.metric import Kerr, KerrNewman, Schwarzschild
    kw = dict(M=5e27 * u.kg, a=0.7 * u.one)
    s = 1 * u.s
    for i, (x, y, z) in enumerate(itertools.product((-4e7, 3e7, 0.0), (2e7, -1e6, 0.0), (5e7, -8e5, 0.0))):
        p = (s, x * u.m, y * u.m, z * u.m)
        v = (10 * u.km / u.s, -2 * u.km / u.s, 33 * u.km / u.s)
        put(("sph", i), lambda: Cartesian(*p).to_spherical(**kw).values())
        put(("bl", i), lambda: Cartesian(*p).to_bl(**kw).values())
        put(("sphd", i), lambda: CartesianDifferential(*p, *v).spherical_differential(**kw).values())
        put(("bld", i), lambda: CartesianDifferential(*p, *v).bl_differential(**kw).values())
    for i, (r, th, ph) in enumerate(itertools.product((3e7, 1e9, 0.0), (0.4, 2.2, 0.0), (-2.0, 1.0))):
        p = (s, r * u.m, th * u.rad, ph * u.rad)
        v = (10 * u.km / u.s, -2e-5 * u.rad / u.s, 1e-4 * u.rad / u.s)
        put(("sc", i), lambda: Spherical(*p).to_cartesian(**kw).values())
        put(("sb", i), lambda: Spherical(*p).to_bl(**kw).values())
        put(("bc", i), lambda: BoyerLindquist(*p).to_cartesian(**kw).values())
        put(("bs", i), lambda: BoyerLindquist(*p).to_spherical(**kw).values())
        put(("scd", i), lambda: SphericalDifferential(*p, *v).cartesian_differential(**kw).values())
        put(("bcd", i), lambda: BoyerLindquistDifferential(*p, *v).cartesian_differential(**kw).values())
        sd, bd = SphericalDifferential(*p, *v), BoyerLindquistDifferential(*p, *v)
        put(("v4s", i), lambda: sd.velocity(metric=Schwarzschild(coords=sd, M=5e27 * u.kg)))
        put(("v4k", i), lambda: bd.velocity(metric=Kerr(coords=bd, M=5e27 * u.kg, a=0.7 * u.one)))
        put(("v4n", i), lambda: bd.velocity(metric=KerrNewman(coords=bd, M=5e27 * u.kg, a=0.7 * u.one, Q=1e3 * u.C)))
    from einsteinpy.geodesic import Nulllike, Timelike
    for i, (m, prm) in enumerate((("Schwarzschild", ()), ("Kerr", (0.9,)), ("KerrNewman", (0.6, 0.3)))):
        for c in (Timelike, Nulllike):
            put(("geo", m, c.__name__), lambda: c(metric=m, metric_params=prm, position=[6., 1.3, 0.2], momentum=[0.1, 1., 3.], steps=4, suppress_warnings=True).trajectory[1])
else:
    from einsteinpy.plotting import fractal
    F = sys.modules["einsteinpy.plotting.fractal"]
    for a, b, d in ((0.4, 2.75, 2), (-1.0, 0.0, 1)) if not thorough else ((0.4, 2.75, 3), (-1.0, 0.0, 2)):
        put(("figure", a, b, d), lambda: [np.asarray(t.z, dtype=float) for t in fractal(start_angle=a, end_angle=b, divs=d, show=False).data])
    img = getattr(F, "_fractal_img", None)
    for dims in ((6, 6), (5, 9), (1, 4), (12, 3)) + (((40, 40),) if thorough else ()):
        for ang in (0.0, 1.1, 2.75, np.pi, -2.0):
            for kw in ({}, dict(zabs_max=2), dict(iter_max=7), dict(x_range=(-0.5, 0.7), y_range=(0.0, 1.2)), dict(iter_max=1), dict(zabs_max=4.5, iter_max=200)):
                if img:
                    put((dims, ang, str(sorted(kw.items()))), lambda: img(dims=dims, angle=ang, **kw))
pickle.dump((res, warned), out)
out.close()
