"""Black-hole shadow: every combination of mass, unit, field of view, number of rays and limit on a grid; smoothing and plotting histories."""
import itertools
import numpy as np
import astropy.units as u
from scipy.interpolate import interp1d
from einsteinpy.rays import Shadow
from einsteinpy.plotting import ShadowPlotter
from mc.figs import mpl_lines, plt, quiet, same

PID = "C39"
LEVEL = "model_checking"
BOUND = {"quick": "10 masses x 3 mass units x 7 fields of view (below to far above critical) x 2 length units x 6 ray counts x 3 limits; words of <= 3 smoothings; both plot kinds",
         "thorough": "22 masses, 13 fields of view, 10 ray counts, 6 limits"}
ASSUMPTIONS = ["The class works in its own scale: the value of the mass in kg and of the field of view in km are lengths of the same unit.",
               "Intensities are compared as the class evaluates them, by five-point Gauss quadrature."]
MASS = [1.0, 0.5, 2.0, 3.7, 10.0, 0.01, 1e-3, 1e5, 1.0 / 3, 2.4]
FOV = [4.0, 5.2, 5.3, 7.0, 10.0, 30.0, 1000.0]  # in units of the mass; the critical value is 5.196
NR = [1, 2, 3, 8, 20, 51]
LIM = [0.001, 0.1, 1e-6]
GX, GW = np.polynomial.legendre.leggauss(5)


def masses(tier):
    return MASS if tier == "quick" else MASS + [0.1, 0.77, 1.5, 5.0, 7.3, 25.0, 100.0, 1e8, 1e-2 / 3, 42.0, 1e3, 1e12]


def cases(tier):
    return [dict(name="rays:%g" % m, m=m) for m in masses(tier)] + [dict(name="smooth", smooth=1), dict(name="plots", plots=1), dict(name="refused", refused=1)]


def turning(b, m):
    """largest root of r^3 - b^2 r + 2 m b^2"""
    return 2 * b / np.sqrt(3) * np.cos(np.arccos(-3 * np.sqrt(3) * m / b) / 3)


def rate(r, b, m, sign):
    """redshift^3 x path length per unit r for gas falling freely from rest at infinity: sign +1 behind (receding), -1 in front"""
    s = np.sqrt(1 - b * b * (1 - 2 * m / r) / r ** 2)
    g = (1 - 2 * m / r) / (1 + sign * s * np.sqrt(2 * m / r))
    return g ** 3 / (r ** 2 * s)


def gauss(b, m, sign, lo, hi):
    return 0.5 * (hi - lo) * np.dot(GW, rate(0.5 * (hi - lo) * GX + 0.5 * (hi + lo), b, m, sign))


def run_case(case, ctx):
    try:
        quiet(_run, case, ctx)
    finally:
        plt.close("all")


def make(m, n, f, mu=u.kg, fu=u.km, **kw):
    return Shadow(mass=(m * u.kg).to(mu), n_rays=n, fov=(f * u.km).to(fu), **kw)


def _run(case, ctx):
    th = ctx.tier == "thorough"
    if "m" in case:
        m = case["m"]
        bc = 3 * np.sqrt(3) * m
        fovs = FOV + ([5.1962, 5.25, 6.0, 15.0, 60.0, 1e5] if th else [])
        for f, n, lim in itertools.product(fovs, NR + ([4, 5, 100, 333] if th else []), LIM + ([0.01, 0.5, 1e-9] if th else [])):
            # masses and fields of view in every unit for the default limit, one unit otherwise
            un = itertools.product((u.kg, u.g, u.t), (u.km, u.m)) if lim == 0.001 and (n in (3, 8) or th and n < 50) else [(u.kg, u.km)]
            if lim != 0.001:
                lim = lim * m
            for mu, fu in un:
                fv = f * m
                kw = {} if lim == 0.001 else dict(limit=lim)
                key = "rays:%g:%g:%d:%g:%s:%s" % (m, f, n, lim, mu, fu)
                ctx.state(key)
                s = make(m, n, fv, mu, fu, **kw)
                ctx.step()
                b = np.linspace(bc, fv, n)
                ctx.check(np.isclose(s.b_crit.value, bc, rtol=1e-10) and np.isclose(s.horizon, 2 * m, rtol=1e-10), key + ":scales", lambda: "%s: critical impact parameter %s, horizon %s" % (key, s.b_crit, s.horizon))
                ctx.check(len(s.b) == n and np.allclose(s.b, b, rtol=1e-9), key + ":b", lambda: "%s: impact parameters %s" % (key, s.b))
                keep = b[b > bc * (1 + 1e-12)]
                if not ctx.check(len(s.bfin) == len(keep) and np.allclose(s.bfin, keep, rtol=1e-9), key + ":kept", lambda: "%s: %d rays kept, %d lie above the critical value" % (key, len(s.bfin), len(keep))):
                    continue
                z = np.array(s.z).reshape(-1, 2)
                ctx.check(np.allclose(z[:, 0], keep, rtol=1e-9) and np.allclose(z[:, 1], turning(keep, m), rtol=1e-6), key + ":turning", lambda: "%s: turning points %s, expected %s" % (key, z[:3, 1], turning(keep, m)[:3]))
                b2 = np.linspace(lim, bc, len(keep))
                ctx.check(np.allclose(s.b2, b2, rtol=1e-9), key + ":b2", lambda: "%s: inner impact parameters %s" % (key, s.b2))
                fb = np.concatenate((b2, keep))
                ctx.check(np.allclose(s.fb1, fb, rtol=1e-9) and np.allclose(s.fb2, -fb, rtol=1e-9), key + ":fb", "%s: the image is not symmetric" % key)
                want = [gauss(x, m, 1, 2 * m, fv) for x in b2] + [gauss(x, m, -1, t, fv) + gauss(x, m, 1, t, fv) for x, t in zip(keep, turning(keep, m))]
                got = np.array(s.intensity, dtype=float)
                # rays at the turning point lose digits in 1 - b^2 g/r^2
                ctx.check(got.shape == (len(want),) and np.allclose(got, want, rtol=2e-5), key + ":intensity", lambda: "%s: intensities %s, expected %s" % (key, got[:4], want[:4]))
                ctx.check(np.all(got > 0), key + ":positive", "%s: negative intensity" % key)
                ctx.outcome(round(m, 4), f, len(keep))
                ctx.trace()
        return
    if "smooth" in case:
        for (m, n, f), words in itertools.product([(1.0, 8, 30.0), (0.5, 20, 10.0), (2.4, 12, 40.0), (3.7, 5, 1000.0)], [[]] + [list(w) for k in (1, 2, 3) for w in itertools.product((7, 100, 500), repeat=k)]):
            s = make(m, n, f)
            other = make(1.0, 6, 20.0)
            ob, oi = np.array(other.fb1).copy(), np.array(other.intensity).copy()
            x, y = np.array(s.fb1), np.array(s.intensity)
            for k in words:
                o = np.argsort(x, kind="stable")
                xn = np.linspace(x.min(), x.max(), k)
                y, x = interp1d(x[o], y[o], kind="cubic")(xn), xn
                s.smoothen(*([k] if k != 500 else []))
                ctx.step()
                ctx.state("smooth", m, tuple(words), k)
                ctx.check(len(s.fb1) == len(s.fb2) == len(s.intensity) == k, "smooth:size", lambda: "smoothen(%d) gives %d points" % (k, len(s.fb1)))
                ctx.check(same(s.fb1, x) and same(s.fb2, -x) and np.allclose(s.intensity, y, rtol=1e-8, atol=1e-12), "smooth:values:%g" % m, lambda: "smoothen(%s) of mass %g: %s, expected %s" % (words, m, s.intensity[:3], y[:3]))
            ctx.check(np.array_equal(ob, other.fb1) and np.array_equal(oi, other.intensity), "smooth:other", "smoothing one shadow changes another")
            ctx.trace()
        return
    if "plots" in case:
        for (m, n, f), sm, line in itertools.product([(1.0, 8, 30.0), (0.5, 20, 10.0), (2.4, 3, 40.0), (3.7, 130, 50.0)], (None, 30, 150, 500), (True, False, None)):
            s = make(m, n, f)
            if sm:
                if n < 4:
                    continue
                s.smoothen(sm)
            fb, it = np.array(s.fb1, dtype=float).copy(), np.array(s.intensity, dtype=float).copy()
            p = ShadowPlotter(shadow=s, **({} if line is None else dict(is_line_plot=line)))
            plt.figure()
            p.plot()
            ctx.step()
            key = "plots:%g:%s:%s" % (m, sm, line)
            ctx.state(key)
            if line is not False:
                ln = mpl_lines(plt.gca())
                ctx.check(len(ln) == 2 and {l[2] for l in ln} == {(1.0, 0.0, 0.0)} and all(same(l[0][1], it) for l in ln) and same(ln[0][0][0], fb) and same(ln[1][0][0], -fb),
                          key + ":lines", lambda: "%s: %d lines" % (key, len(ln)))
                p.show()
            else:
                p.show()
                c = [x for x in plt.gca().collections]
                if ctx.check(len(c) == 1 and hasattr(c[0], "get_array"), key + ":mesh", "%s: %s drawn" % (key, c)):
                    xy = np.asarray(c[0]._coordinates, dtype=float)
                    v = np.asarray(c[0].get_array(), dtype=float).reshape(xy.shape[:2])
                    r = np.hypot(xy[..., 0], xy[..., 1])
                    an = np.unwrap(np.arctan2(xy[..., 1], xy[..., 0]), axis=0)
                    ctx.check(np.allclose(r, fb[None, :], rtol=1e-9) and np.allclose(v, it[None, :], rtol=1e-9), key + ":radial", "%s: the image is not the intensity as a function of the impact parameter" % key)
                    ctx.check(np.allclose(an[-1] - an[0], 2 * np.pi) and np.all(np.diff(an, axis=0) > 0), key + ":circle", "%s: the image is not a full circle" % key)
            ctx.check(np.array_equal(fb, s.fb1) and np.array_equal(it, s.intensity), key + ":input", "%s: the shadow was changed" % key)
            ctx.trace()
            plt.close("all")
        return
    for mass, fov in ((1 * u.km, 10 * u.km), (1 * u.s, 10 * u.km), (1 * u.kg, 10 * u.kg), (1 * u.kg, 10 * u.s), (1 * u.one, 10 * u.km)):
        ctx.step()
        ctx.state("refused", str(mass), str(fov))
        ctx.raises(u.UnitsError, lambda: Shadow(mass=mass, n_rays=4, fov=fov), "refused:%s:%s" % (mass, fov), "mass %s, field of view %s" % (mass, fov))
    for mass, fov in ((1.0, 10 * u.km), (1 * u.kg, 10.0), (None, 10 * u.km)):
        ctx.step()
        ctx.raises(TypeError, lambda: Shadow(mass=mass, n_rays=4, fov=fov), "refused:%s:%s" % (mass, fov), "mass %s, field of view %s" % (mass, fov))
    ctx.trace()
