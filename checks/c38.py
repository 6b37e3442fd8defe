"""Schwarzschild embedding: mass x unit x radius grid against the optical geometry; tables and surfaces for every step size; plots."""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.plotting import HypersurfacePlotter
from mc.figs import plt, quiet
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Poly3DCollection

PID = "C38"
LEVEL = "model_checking"
BOUND = {"quick": "9 masses (6e21..2e30 kg) x 4 mass units x 40 radii (9M/4 .. 1000M); tables and surfaces for 6 step factors; every order of <= 4 calls on two objects; 2 plot types",
         "thorough": "400 radii, 14 step factors, words of <= 6 calls"}
ASSUMPTIONS = ["Lengths are measured in the scale of the class (the mass in units of 1e23 kg)."]
MASS = [3.1e22, 5.972e21, 4e24, 5.972e24, 1e23, 3.3e23, 6e26, 2e30, 7.7e22]
UNITS = [u.kg, u.g, u.t, u.M_earth]
SCALE = 10e22


def cases(tier):
    return [dict(name="radii:%g" % m, m=m) for m in MASS] + [dict(name="tables:%g" % m, tab=m) for m in MASS] + \
        [dict(name="words:%d" % i, words=i) for i in range(4)] + [dict(name="plots", plots=1), dict(name="small", small=1)]


def R_(r, M):
    return r / np.sqrt(1 - 2 * M / r)


def slope(r, M):
    """dz/dr of the surface with the intrinsic geometry dr^2/(1-2M/r)^2 + r^2 dphi^2/(1-2M/r): positive outside the throat at 3M, negative inside"""
    f = 1 - 2 * M / r
    return np.sign(r - 3 * M) * np.sqrt((4 * M * r - 9 * M * M) / (r * r * f ** 3))


def rgrid(M, n):
    return sorted({M * float(x) for x in np.concatenate(([2.2501, 2.26, 2.5, 2.9, 2.999, 3.001, 3.1, 4.5, 8.9, 9.0, 20.0, 1000.0], np.geomspace(2.2502, 999, n)))})


def grad_ok(ctx, key, r, M, got):
    want = slope(r, M)
    if np.isclose(got, want, rtol=1e-7):
        return ctx.check(True, key, "")
    if np.isclose(got, want * np.sqrt(R_(r, M)), rtol=1e-7):
        return ctx.check(False, "gradient-sqrt-R", lambda: "gradient(%g) for M = %g is %g, the slope is %g (factor sqrt(R))" % (r, M, got, want))
    return ctx.check(False, key, lambda: "%s: gradient(%g) for M = %g is %g, the slope is %g" % (key, r, M, got, want))


def table(obj, M, alpha, top):
    """radii and the sums of slope x step of the outward leg"""
    r, z, out = 3 * M + 1e-4, 0.0, []
    h = M / alpha
    while r < top * M:
        out.append((r, z))
        z += obj.gradient(r) * h
        r += h
    return out


def leg(ctx, key, x, y, M, alpha, obj, sign, bound, start=None):
    """one leg of the table: radii start at 3M(+), advance by M/alpha and stop at the bound; z accumulates slope x step"""
    h = M / alpha
    n = max(1, int(np.floor(abs(bound * M - (3 * M + 1e-4)) / h)))
    r = 3 * M + 1e-4 + sign * h * np.arange(len(x))
    ctx.check(abs(len(x) - n) <= 2 and (len(x) == 0 or sign * (bound * M - r[-1]) > -1e-6 * M) and sign * (bound * M - (r[-1] + sign * h)) < h * 1e-3 + 1e-9,
              key + ":range", lambda: "%s: %d radii up to %g, the bound is %g" % (key, len(x), r[-1], bound * M))
    ctx.check(np.allclose(x, R_(r, M), rtol=1e-7), key + ":R", lambda: "%s: radial coordinates %s, expected %s" % (key, x[:3], R_(r, M)[:3]))
    g = np.array([obj.gradient(v) for v in r])
    want = np.concatenate(([0.0], np.cumsum(g * h)[:-1]))
    ctx.check(np.allclose(y, want, rtol=1e-6, atol=1e-9 * np.max(np.abs(want))), key + ":z", lambda: "%s: heights %s, expected %s" % (key, y[:4], want[:4]))
    ctx.check(np.all(sign * np.diff(y[1:]) > -1e-12), key + ":monotonic", "%s: the surface folds back" % key)


def run_case(case, ctx):
    try:
        quiet(_run, case, ctx)
    finally:
        plt.close("all")


def _run(case, ctx):
    th = ctx.tier == "thorough"
    if "m" in case:
        m = case["m"]
        M = m / SCALE
        objs = [SchwarzschildEmbedding((m * u.kg).to(w)) for w in UNITS]
        for r in rgrid(M, 400 if th else 40):
            for o, w in zip(objs, UNITS):
                key = "radii:%g:%g:%s" % (m, r / M, w)
                ctx.state(key)
                ctx.step(2)
                R = o.radial_coord(r)
                ctx.check(np.isclose(R, R_(r, M), rtol=1e-9), key + ":R", lambda: "%s: R = %g, expected %g" % (key, R, R_(r, M)))
                grad_ok(ctx, key + ":gradient", r, M, o.gradient(r))
                ctx.outcome(round(R / M, 6))
        for o, w in zip(objs, UNITS):
            ctx.check(np.isclose(o.r_init.value, 3 * M + 1e-4, rtol=1e-9) and np.isclose(o.M.value, M, rtol=1e-9), "radii:%g:%s:init" % (m, w), lambda: "initial radius %s for mass %s" % (o.r_init, o.M))
            ctx.check(o.input_units == [w], "radii:%g:%s:unit" % (m, w), "input unit not recorded")
        # arrays of radii at once
        rs = np.array(rgrid(M, 10))
        ctx.check(np.allclose(objs[0].radial_coord(rs), R_(rs, M), rtol=1e-9) and np.allclose(objs[0].gradient(rs), [objs[0].gradient(v) for v in rs], rtol=1e-9), "radii:%g:array" % m, "arrays of radii give something else")
        ctx.trace(len(objs))
        return
    if "tab" in case:
        m = case["tab"]
        M = m / SCALE
        for alpha in (1, 2, 3.7, 10, 50, 100) + ((4, 5, 7, 20, 33.3, 77, 150, 300) if th else ()):
            for w in UNITS[:2]:
                o = SchwarzschildEmbedding((m * u.kg).to(w))
                key = "tables:%g:%g:%s" % (m, alpha, w)
                ctx.state(key)
                ctx.step(2)
                x, y = o.get_values(alpha)
                x, y = np.array(x, dtype=float), np.array(y, dtype=float)
                # the second leg starts where the height is 0 again
                ks = [i for i in range(1, len(y)) if y[i] == 0]
                if not ctx.check(len(x) == len(y) and len(y) and y[0] == 0 and len(ks) == 1, key + ":legs", lambda: "%s: zeros of the height at %s" % (key, ks)):
                    continue
                k = ks[0]
                leg(ctx, key + ":out", x[:k], y[:k], M, alpha, o, 1, 9)
                leg(ctx, key + ":in", x[k:], y[k:], M, alpha, o, -1, 2.25)
                X, Y, Z = o.get_values_surface(alpha)
                n = X.shape[1]
                Z = np.reshape(Z, X.shape)
                ph = np.linspace(0, 2 * np.pi, X.shape[0])
                ctx.check(X.shape == Y.shape and X.shape[0] == 60, key + ":shape", "%s: surface of shape %s" % (key, X.shape))
                ctx.check(np.allclose(X, np.cos(ph)[:, None] * X[0], rtol=1e-9, atol=1e-9 * X.max()) and np.allclose(Y, np.sin(ph)[:, None] * X[0], rtol=1e-9, atol=1e-9 * X.max()), key + ":rotate", "%s: not a surface of revolution" % key)
                ctx.check(np.allclose(Z, Z[0]), key + ":axis", "%s: height depends on the angle" % key)
                leg(ctx, key + ":surface", X[0], Z[0], M, alpha, o, 1, 20)
                ctx.check(np.allclose(X[0][:k], x[:k], rtol=1e-9) and np.allclose(Z[0][:k], y[:k], rtol=1e-9, atol=1e-12), key + ":same", "%s: surface and curve differ" % key)
                ctx.outcome(m, alpha, k, n)
                ctx.trace()
        return
    if "words" in case:
        ops = ["c0", "c1", "s0", "s1", "g0", "g1"]
        L = 6 if th else 4
        ms = [(5.972e24, 4e24), (1e23, 1e23), (2e30, 3.1e22), (6e26, 7.7e22)][case["words"]]

        def run(o, op):
            if op == "c":
                return np.array(o.get_values(3)).ravel()
            if op == "s":
                return np.concatenate([v.ravel() for v in o.get_values_surface(2)])
            return np.array([o.gradient(5 * o.M.value), o.radial_coord(4 * o.M.value)])
        want = {(op, i): run(SchwarzschildEmbedding(m * u.kg), op) for i, m in enumerate(ms) for op in "csg"}
        for word in itertools.product(ops, repeat=L):
            os_ = [SchwarzschildEmbedding(m * u.kg) for m in ms]
            for n, op in enumerate(word):
                got = run(os_[int(op[1])], op[0])
                w = want[op[0], int(op[1])]
                ctx.step()
                ctx.state(word[:n + 1])
                ctx.check(got.shape == w.shape and np.allclose(got, w, rtol=1e-10), "words:%s" % op[0], lambda: "calls %s: %s gives something else than on a fresh object" % (word, op))
            ctx.trace()
        return
    if "plots" in case:
        for m, alpha in itertools.product((5.972e24, 4e23), (2, 7, 30)):
            e = SchwarzschildEmbedding(m * u.kg)
            X, Y, Z = e.get_values_surface(alpha)
            Z = Z.reshape(X.shape)
            for ty in ("wireframe", "surface", "default"):
                p = HypersurfacePlotter(e, alpha=alpha, **({} if ty == "default" else dict(plot_type=ty)))
                n = len(plt.get_fignums())
                p.plot()
                ctx.step()
                ctx.state("plot", m, alpha, ty)
                key = "plots:%g:%g:%s" % (m, alpha, ty)
                ax = [a for a in plt.gcf().axes if a.collections]
                if not ctx.check(len(plt.get_fignums()) == n + 1 and len(ax) == 1 and ax[0].name == "3d" and len(ax[0].collections) == 1, key + ":figure", lambda: "%s: axes %s" % (key, ax)):
                    continue
                c = ax[0].collections[0]
                if ty == "surface":
                    ctx.check(isinstance(c, Poly3DCollection), key + ":type", "%s: draws a %s" % (key, type(c)))
                    v = np.asarray(c._faces if hasattr(c, "_faces") else c._vec[:3].T, dtype=float).reshape(-1, 3)
                else:
                    ctx.check(isinstance(c, Line3DCollection), key + ":type", "%s: draws a %s" % (key, type(c)))
                    v = np.concatenate([np.asarray(s, dtype=float) for s in c._segments3d])
                pts = {tuple(x) for x in np.round(np.stack([X, Y, Z], axis=-1).reshape(-1, 3) / (m / SCALE), 6).tolist()}
                got = {tuple(x) for x in np.round(v / (m / SCALE), 6).tolist()}
                ctx.check(got <= pts and len(got) > 0.3 * len(pts) and (ty != "surface" or got == pts), key + ":points", lambda: "%s: %d points drawn, %d on the surface, %d elsewhere" % (key, len(got), len(pts), len(got - pts)))
                ctx.trace()
                plt.close("all")
        return
    # light bodies: the offset of the first radius from 3M is absolute
    for m in (1e15, 1e16, 1e17, 1e20):
        o = SchwarzschildEmbedding(m * u.kg)
        M = m / SCALE
        x, y = o.get_values(10)
        ctx.step()
        ctx.state("small", m)
        lo, hi = R_(3 * M, M), R_(9 * M, M)
        inside = len(x) > 0 and all(lo * (1 - 1e-6) <= v <= max(hi, R_(2.25 * M, M)) * (1 + 1e-6) for v in x) and len(x) > 60 and np.all(np.isfinite(y))
        ctx.check(inside, "small-mass-offset", lambda: "mass %g kg (M = %g): the table starts at r = %g M instead of just above 3 M and has %d rows, %d of them NaN" % (m, M, o.r_init.value / M, len(x), np.sum(np.isnan(y))))
        ctx.trace()
