"""Scale factor and derivative: every era x time x unit x tuning parameter of a grid."""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy import constant
from einsteinpy.utils import scalar_factor, scalar_factor_derivative

PID = "C40"
LEVEL = "model_checking"
BOUND = {"quick": "3 eras x 40 times (1e-40..1e18 s) x 7 time units x 8 tuning parameters, scalars and arrays, repeated calls in every order of eras; 12 unknown eras, 8 wrong arguments",
         "thorough": "400 times"}
ASSUMPTIONS = []
UN = [u.s, u.ms, u.min, u.hour, u.yr, u.Gyr, u.ns]
TP = [1.0, 0.5, 2.0, -1.0, 0.0, 1e-20, 3.7e8, 7]
LAM = 2.036e-35  # 1/s^2


def cases(tier):
    return [dict(name="grid:%s" % e, era=e) for e in ("md", "rd", "ded")] + [dict(name="orders", orders=1), dict(name="refused", refused=1)]


def model(t, era, k):
    if era == "md":
        return k * t ** (2 / 3), k * (2 / 3) / t ** (1 / 3)
    if era == "rd":
        return k * np.sqrt(t), k * 0.5 / np.sqrt(t)
    h = np.sqrt(LAM / 3)
    return k * np.exp(h * t), k * h * np.exp(h * t)


def run_case(case, ctx):
    ctx.check(np.isclose(constant.Cosmo_Const.to(1 / u.s ** 2).value, LAM, rtol=1e-12), "constant", "cosmological constant is %s" % constant.Cosmo_Const)
    if "era" in case:
        era = case["era"]
        ts = [float(x) for x in np.geomspace(1e-40, 1e18, 40 if ctx.tier == "quick" else 400)] + [1.0, 8.0, 27.0, 4.0, 13.8e9 * 3.15576e7]
        for t, w in itertools.product(ts, UN):
            q = (t * u.s).to(w)
            for k in TP:
                key = "%s:%g:%s:%g" % (era, t, w, k)
                ctx.state(key)
                kw = {} if k == 1.0 else dict(tuning_param=k)
                if era == "md" and t > 1e10:
                    a, d = scalar_factor(q, **kw), scalar_factor_derivative(q, **kw)
                else:
                    a, d = scalar_factor(q, era=era, **kw), scalar_factor_derivative(t=q, era=era, **kw)
                ctx.step(2)
                wa, wd = model(t, era, k)
                ctx.check(np.isclose(float(a), wa, rtol=1e-9, atol=0), key, lambda: "%s: scale factor %g, expected %g" % (key, a, wa))
                ctx.check(np.isclose(float(d), wd, rtol=1e-9, atol=0), key + ":derivative", lambda: "%s: derivative %g, expected %g" % (key, d, wd))
            ctx.outcome(era, "%.6g" % wa)
        # the reported derivative is the derivative of the reported scale factor
        for t in ts:
            e = 1e-4 * t if era != "ded" else max(1e-4 * t, 1e13)
            if era == "ded" and e > t:
                continue
            num = (scalar_factor((t + e) * u.s, era=era) - scalar_factor((t - e) * u.s, era=era)) / (2 * e)
            d = scalar_factor_derivative(t * u.s, era=era)
            ctx.step(3)
            ctx.check(np.isclose(num, d, rtol=1e-3, atol=0), "%s:%g:difference" % (era, t), lambda: "%s: difference quotient %g, derivative %g at %g s" % (era, num, d, t))
        arr = np.array(ts) * u.s
        ctx.check(np.allclose(scalar_factor(arr, era=era), model(np.array(ts), era, 1.0)[0], rtol=1e-9) and np.allclose(scalar_factor_derivative(arr, era=era), model(np.array(ts), era, 1.0)[1], rtol=1e-9, atol=0),
                  era + ":array", "arrays of times")
        ctx.trace(len(ts))
        return
    if "orders" in case:
        calls = [(e, d, t) for e in ("md", "rd", "ded") for d in (0, 1) for t in (3.0, 1e17)]
        for word in itertools.product(range(len(calls)), repeat=3):
            for c in word:
                e, d, t = calls[c]
                got = (scalar_factor, scalar_factor_derivative)[d](t * u.s, era=e, tuning_param=2.5)
                ctx.step()
                ctx.state(word[:2], c)
                ctx.check(np.isclose(got, model(t, e, 2.5)[d], rtol=1e-9, atol=0), "orders:%s:%d" % (e, d), lambda: "calls %s: %s of %s at %g" % (word, got, e, t))
            ctx.trace()
        return
    for f in (scalar_factor, scalar_factor_derivative):
        for e in ("", "MD", "Md", "dark", "md ", "r", "de", "rde", "matter", None, 0, ("md",)):
            ctx.step()
            ctx.state(f.__name__, str(e))
            ctx.raises(ValueError, lambda: f(3 * u.s, era=e), "era:%s:%r" % (f.__name__, e), "%s with era %r" % (f.__name__, e))
        for t in (3 * u.m, 3 * u.kg, 3 * u.s ** 2, 3 / u.s, 3 * u.one, 3 * u.rad):
            ctx.step()
            ctx.state(f.__name__, str(t))
            ctx.raises(u.UnitsError, lambda: f(t, era="rd"), "unit:%s:%s" % (f.__name__, t.unit), "%s of %s" % (f.__name__, t))
        for t in (3.0, None):
            ctx.step()
            ctx.raises(TypeError, lambda: f(t), "type:%s:%s" % (f.__name__, t), "%s of %s" % (f.__name__, t))
        ctx.trace()
