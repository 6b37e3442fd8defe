"""Tolerance warnings of the geodesic integrator."""
import itertools
import re
import warnings
import numpy as np
from mc.geo import *

PID = "C33"
LEVEL = "model_checking"
BOUND = {"quick": "8 metrics/initial conditions (stable, drifting and diverging) x time-like/light-like x 5 rtol x 5 atol x suppressed or not x 5 (order 2 to 8, coupling, step) settings; "
                  "every step's warning predicted from the reported state; 4 metrics that become nan, infinite or huge beyond a wall, 3 components, 3 orders, 3 tolerances", "thorough": "7 tolerances each, 7 settings, up to twice as many steps"}
ASSUMPTIONS = ["steps whose drift lies within 1e-6 relative of the tolerance are not judged"]
START = [
    ("Kerr", (0.9,), (2.15, np.pi / 2, 0.), (0., 0., 1.5)), ("Kerr", (0.9,), (6., 1.3, -1.), (-.1, 1., 2.8)), ("Schwarzschild", (), (8., 1.3, 0.2), (0.1, 0.5, 3.5)),
    ("Schwarzschild", (), (4., 1.3, 0.2), (-0.3, 1.5, 1.5)), ("KerrNewman", (0.6, 0.3), (3.5, 2., 2.), (.05, -1., 2.1)), ("wavy", (0.11,), (.3, .5, .7), (.4, -.3, .5)),
    ("painleve", (), (5., 1.3, 0.), (.1, .5, 3.5)), ("expanding", (0.05,), (.3, .5, .7), (.4, -.3, .5)),
]
WALLS = {"nan": lambda x: x * float("nan"), "inf": lambda x: x * float("inf"), "-inf": lambda x: x * float("-inf"), "huge": lambda x: x * 1e200}
TOL = (0.0, 1e-8, 1e-4, 1e-2, 1.0)


def cases(tier):
    return [dict(name="%s:%d:%s:%d" % (label(s[0], s[1]), i, tl, j), i=i, tl=tl, set=j) for j in range(7 if tier == "thorough" else 5) for i, s in enumerate(START) for tl in (True, False)] + [dict(name="walled:%s" % w, wall=w) for w in WALLS]


def walled(ctx, wall):
    """a metric which stops making sense at x1 = 5: from there on no step satisfies any tolerance"""
    f = WALLS[wall]
    for slot in (0, 1, 3):
        def g(x, *prm):
            m = np.zeros((4, 4), dtype=object)
            m[0, 0], m[1, 1], m[2, 2], m[3, 3] = -1.0, 1.0, 1.0, 1.0
            if not getattr(x[1], "val", x[1]) < 5:
                m[slot, slot] = f(x[1])
            return m
        for tl, (order, dl), tol, sw in itertools.product((True, False), ((2, 0.5), (4, 0.4), (8, 0.7)), (0.0, 1e-2, 1.0), (False, True)):
            key = "walled:%s:%d:%s:o%d:tol%g:%s" % (wall, slot, tl, order, tol, sw)
            n = 6
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                with np.errstate(all="ignore"):
                    y = (Timelike if tl else Nulllike)(metric=g, metric_params=(), position=(4.0, 1.0, 1.0), momentum=(2.0, 0.3, 0.1), return_cartesian=False,
                                                       steps=n, delta=dl, order=order, rtol=tol, atol=max(tol, 1e-6), suppress_warnings=sw).trajectory[1]
            ctx.step(n)
            ctx.state(key)
            steps = [int(re.search(r"(\d+)\D*$", str(x.message)).group(1)) for x in w if issubclass(x.category, RuntimeWarning) and "tolerance" in str(x.message)]
            lost = False
            for s in range(n):
                with np.errstate(all="ignore"):
                    pp = y[s][4:]
                    norm = float(np.array(g(y[s][:4]), dtype=float) @ pp @ pp)
                const = -1.0 if tl else 0.0
                lim = max(tol, 1e-6) + tol * abs(const)
                if np.isfinite(norm) and abs(abs(norm - const) - lim) <= 1e-6 * lim + 1e-10:
                    continue
                want = not sw and not abs(norm - const) <= lim
                lost = lost or not np.isfinite(norm)
                ctx.outcome(wall, want, np.isfinite(norm))
                ctx.check((s + 1 in steps) == want, key + ":step%d" % (s + 1), lambda: "%s: %s warning at step %d, norm %r" % (key, "missing" if want else "unexpected", s + 1, norm))
            ctx.check(lost or wall == "huge", key + ":reached", key + ": the wall was not reached")
            ctx.trace()


def run_case(case, ctx):
    if "wall" in case:
        return walled(ctx, case["wall"])
    k, prm, q, p = START[case["i"]]
    tl = case["tl"]
    sets = [(2, 1.0, 0.5), (2, 0.01, 0.5), (4, 0.3, 0.2), (6, 0.3, 0.3), (8, 0.3, 0.3), (2, 1.0, -0.1), (6, 0.1, 0.3)][case["set"]:][:1]
    tols, n = TOL, 5
    if ctx.tier == "thorough":
        # (the user's painleve metric only makes sense for r > 0, and longer orbits leave it)
        tols, n = TOL + (1e-6, 0.3), 5 if k == "painleve" else 10 if sets[0][0] < 6 else 6
    r = ref(k, tuple(prm))
    cls = Timelike if tl else Nulllike
    for order, om, dl in sets:
        base = None
        for rt, at, sw in itertools.product(tols, tols, (False, True)):
            if order > 4 and (rt != at or rt == 1.0) and (ctx.tier == "quick" or rt * at):
                continue
            key = "%s:o%d:w%g:d%g:rtol%g:atol%g:%s" % (case["name"], order, om, dl, rt, at, sw)
            ctx.state(key)
            for via in ("class", "recompute") if (rt, at) in ((1e-2, 1e-2), (0.0, 1e-4)) else ("class",):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    kw = dict(steps=n, delta=dl, order=order, omega=om, rtol=rt, atol=at, suppress_warnings=sw)
                    if via == "class":
                        g = cls(metric=k if k in FUN else fun(k), metric_params=prm, position=q, momentum=p, return_cartesian=False, **kw)
                        y = g.trajectory[1]
                    else:
                        y = g.calculate_trajectory(**kw)[1]
                ctx.step(n)
                base = y if base is None else base
                ctx.check(np.allclose(y, base, rtol=1e-11, atol=1e-11, equal_nan=True), key + ":trajectory", key + ": the trajectory depends on the tolerances")
                got = [x for x in w if issubclass(x.category, RuntimeWarning) and "tolerance" in str(x.message)]
                steps = []
                for x in got:
                    m = re.search(r"(\d+)\D*$", str(x.message))
                    steps.append(int(m.group(1)) if m else None)
                const = -1.0 if tl else 0.0
                for s in range(n):
                    qq, pp = y[s][:4], y[s][4:]
                    if np.all(np.isfinite(y[s])):
                        terms = r.g(qq) * np.outer(pp, pp)
                        d, lim = abs(terms.sum() - const), at + rt * abs(const)
                        noise = 1e-12 * (1 + abs(terms).sum())
                        if abs(d - lim) <= 1e-6 * lim + noise:
                            continue
                        want = d > lim
                    else:
                        want = True
                    want = want and not sw
                    ctx.outcome(want, case["name"], s)
                    ctx.check((s + 1 in steps) == want and steps.count(s + 1) <= 1, key + ":step%d" % (s + 1),
                              lambda: "%s: %s warning at step %d, norm off by %.3g, tolerance %.3g" % (key, "missing" if want else "unexpected", s + 1, d, lim))
                ctx.check(all(x in range(1, n + 1) for x in steps) and steps == sorted(steps), key + ":names", lambda: "%s: warnings for steps %s" % (key, steps))
                ctx.check(not sw or not got, key + ":suppressed", key + ": warnings although suppressed")
                ctx.trace()
