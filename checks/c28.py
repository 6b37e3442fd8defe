"""Initial 4-momenta: on shell, future-directed, spatial part kept."""
import itertools
import numpy as np
from einsteinpy.geodesic.utils import _P
from mc.geo import *
from mc import geo

PID = "C28"
LEVEL = "model_checking"
BOUND = {"quick": "16 built-in metrics x 5 radii x 5 angles x 27 sign patterns (-,0,+) of the momentum in 2 magnitudes x time-like/light-like; 6 user metrics and every metric with one "
                  "off-diagonal slot filled (both signs) x the same momenta; other initial times (7.5, -3.2, 120) and azimuths; whole-number positions and momenta; the geodesic classes on a subset; 3 container types", "thorough": "9 radii, 8 angles, 3 magnitudes"}
ASSUMPTIONS = ["the norm vanishes to 1e-11 of the sum of the absolute values of its terms (rounding of the metric itself taken from its own values)"]
MOM = list(itertools.product((-1, 0, 1), repeat=3))


def slots():
    for i in range(4):
        for j in range(i + 1, 4):
            for s in (0.4, -0.4):
                yield i, j, s


def slotfun(i, j, s):
    def slotted(x, *p):
        g = _mat({(0, 0): -1.1, (1, 1): 1.2, (2, 2): 0.8 + 0 * x[2], (3, 3): 0.9})
        g[i, j] = g[j, i] = s + 0.01 * x[1]
        return g
    return slotted


from mc.geo import _mat


def cases(tier):
    return [dict(name=label(k, p), kind=k, prm=p) for k, p in named()] + [dict(name="user:" + k, kind=k, prm=USER[k][1]) for k in USER] + \
        [dict(name="slot:%d%d:%g" % s, slot=s) for s in slots()]


def points(kind, prm, tier):
    if kind in FUN:
        a, Q = (tuple(prm) + (0, 0))[:2]
        rp = 1 + np.sqrt(max(0.0, 1 - a * a - Q * Q))
        f = (1.02, 1.3, 2.0, 5.0, 1e4) if tier == "quick" else (1.001, 1.02, 1.1, 1.3, 2.0, 3.0, 5.0, 40., 1e4)
        th = (0.1, 0.8, np.pi / 2, 2.2, 3.1) if tier == "quick" else (1e-3, 0.1, 0.8, 1.2, np.pi / 2, 2.2, 2.9, 3.1)
        return [np.array([0., rp * x, t, 0.3]) for x in f for t in th]
    r = (2.5, 6.0, 40.0)
    return [np.array([0., x, t, ph]) for x in r for t in (0.4, 1.3, 2.4) for ph in (-1.0, 0.0, 2.0)]


def judge(ctx, key, gq, P, p3, tl):
    """gq: contravariant metric as float matrix"""
    ctx.state(key, tl)
    P = np.asarray(P, dtype=float)
    if not ctx.check(P.shape == (4,) and np.all(np.isfinite(P)), key + ":finite", lambda: "%s p=%s: momentum %s" % (key, p3, P)):
        return
    ctx.outcome(np.round(P, 8).tobytes())
    ctx.check(np.array_equal(P[1:], np.asarray(p3, dtype=float)), key + ":spatial", lambda: "%s: spatial momentum %s became %s" % (key, p3, P[1:]))
    terms = gq * np.outer(P, P)
    norm, scale = terms.sum(), abs(terms).sum() + 1
    want = -1.0 if tl else 0.0
    # sensitivity of the norm to the rounding of P0 alone
    tol = 1e-11 * scale
    ctx.check(abs(norm - want) <= tol, key + ":norm", lambda: "%s p=%s time_like=%s: norm %.12g, expected %g (P=%s)" % (key, p3, tl, norm, want, P))
    up0 = gq[0] @ P
    if tl or any(p3):
        ctx.check(up0 > 0, key + ":future", lambda: "%s p=%s time_like=%s: contravariant time component %g (P=%s)" % (key, p3, tl, up0, P))
    ctx.trace()


def run_case(case, ctx):
    tier = ctx.tier
    if "slot" in case:
        f, prm, kind, r = slotfun(*case["slot"]), (), "slot", None
    else:
        kind, prm = case["kind"], tuple(case["prm"])
        f, r = fun(kind), ref(kind, tuple(prm))
    mags = ((1.0, 0.7, 2.0), (0.05, 3.0, 0.4)) if tier == "quick" else ((1.0, 0.7, 2.0), (0.05, 3.0, 0.4), (10., .01, 20.))
    for q in points(kind, prm, tier):
        gq = r.g(q) if r is not None else np.array(f(q), dtype=float)
        for mag in mags:
            for pat in MOM:
                p3 = [m * s for m, s in zip(mag, pat)]
                for tl in (True, False):
                    q_in = q.copy()
                    P = _P(f, prm, q_in, np.array(p3), tl)
                    ctx.step()
                    judge(ctx, "%s:%s:%s:%s" % (case["name"], np.round(q, 4).tolist(), pat, tl), gq, P, p3, tl)
                    ctx.check(np.array_equal(q_in, q), case["name"] + ":mutated", "the position handed over was changed")
    # at other times and azimuths, and for positions and momenta of whole numbers
    pts = points(kind, prm, tier)
    for q in pts[::3 if tier == "quick" else 1]:
        for t, ph in ((7.5, q[3]), (-3.2, q[3] + 2.0), (120.0, q[3])):
            q2 = np.array([t, q[1], q[2], ph])
            try:
                gq = r.g(q2) if r is not None else np.array(f(q2), dtype=float)
            except (OverflowError, ZeroDivisionError):
                continue
            if not np.all(np.isfinite(gq)) or gq[0, 0] >= 0:
                continue
            for pat in MOM[::2]:
                p3 = [m * s for m, s in zip(mags[0], pat)]
                for tl in (True, False):
                    P = _P(f, prm, q2.copy(), np.array(p3), tl)
                    ctx.step()
                    judge(ctx, "%s:t%g:%s:%s:%s" % (case["name"], t, np.round(q2, 4).tolist(), pat, tl), gq, P, p3, tl)
    for q2 in ((0, 7, 1, 0), (3, 12, 2, 1), (-2, 40, 1, 2)):
        gq = r.g(np.array(q2, dtype=float)) if r is not None else np.array(f(np.array(q2, dtype=float)), dtype=float)
        if not np.all(np.isfinite(gq)) or gq[0, 0] >= 0:
            continue
        for pat in MOM[1::2]:
            p3 = [2 * s for s in pat]
            for tl, cq, cp in itertools.product((True, False), (np.array, list), (np.array, tuple)):
                P = _P(f, prm, cq(q2), cp(p3), tl)
                ctx.step()
                judge(ctx, "%s:int:%s:%s:%s" % (case["name"], q2, pat, tl), gq, P, p3, tl)
    # containers, and the default kind
    q = points(kind, prm, tier)[len(points(kind, prm, tier)) // 2]
    gq = r.g(q) if r is not None else np.array(f(q), dtype=float)
    for c in (list, tuple, np.array):
        for p3 in ([1, 0, 2], [1.0, -0.5, 2.0], [0, 0, 0]):
            for tl in (True, False):
                P = _P(f, prm, list(q) if c is list else q, c(p3), tl)
                ctx.step()
                judge(ctx, "%s:%s:%s:%s" % (case["name"], c.__name__, p3, tl), gq, P, p3, tl)
            for tl in (np.True_, np.False_, 1, 0):
                P = _P(f, prm, list(q) if c is list else q, c(p3), tl)
                ctx.step()
                judge(ctx, "%s:%s:%s:%s%s" % (case["name"], c.__name__, p3, type(tl).__name__, tl), gq, P, p3, bool(tl))
            judge(ctx, "%s:%s:%s:default" % (case["name"], c.__name__, p3), gq, _P(f, prm, q, c(p3)), p3, True)
    # the geodesic classes start from it
    metric = kind if kind in FUN else f
    pos = [float(x) for x in q[1:]]
    for metric in ([kind, f] if kind in FUN else [f]):
        for p3 in ([0.1, 0.2, 1.0], [-0.1, 0.0, -2.0], (0, 1, 0)):
            for cls, kw, tl in ((Geodesic, {}, True), (Geodesic, dict(time_like=True), True), (Geodesic, dict(time_like=False), False),
                                (Geodesic, dict(time_like=np.True_), True), (Geodesic, dict(time_like=np.False_), False), (Geodesic, dict(time_like=1), True),
                                (Geodesic, dict(time_like=0), False), (Timelike, {}, True), (Nulllike, {}, False)):
                g = cls(metric=metric, metric_params=prm, position=pos, momentum=p3, steps=1, delta=1e-5, suppress_warnings=True, return_cartesian=False, **kw)
                ctx.step()
                key = "%s:%s:%s:%s:%s" % (case["name"], cls.__name__, p3, tl, callable(metric))
                q0 = np.array([0.0] + pos)
                g0 = r.g(q0) if r is not None else np.array(f(q0), dtype=float)
                judge(ctx, key, g0, g.momentum, p3, tl)
                ctx.check(np.array_equal(np.asarray(g.position, dtype=float), q0), key + ":position", lambda: "%s: starts at %s" % (key, g.position))
                ctx.check(bool(g.time_like) == tl and (g.kind == ("Time-like" if tl else "Null-like")), key + ":kind", lambda: "%s: kind %s" % (key, g.kind))
                # the first row is one tiny step away from the initial state
                row = np.asarray(g.trajectory[1], dtype=float)[0]
                y0 = np.concatenate((q0, np.asarray(g.momentum, dtype=float)))
                if r is not None:
                    y1 = y0 + 1e-5 * r.rhs(0, y0)
                    d = abs(row - y1)
                    lim = 1e-8 * (1 + abs(y0) + abs(r.rhs(0, y0)))
                    ctx.check(np.all(d <= lim), key + ":start", lambda: "%s: the trajectory starts with %s, expected %s" % (key, row, y1))
