"""Horizons and ergospheres reported by singularities(): they are where the metric itself says they are."""
import itertools
import numpy as np
import astropy.units as u
from mc import knref
from mc.num import *

PID = "C20"
LEVEL = "model_checking"
BOUND = {"quick": "4 masses x 9 spins x 5 charges x 13 angles (scalar and array), all orders of two metrics alive at once",
         "thorough": "17 spins, 9 charges, 41 angles"}
ASSUMPTIONS = ["radii agree to 1e-9 of r_s, relaxed by the conditioning of the square root at extremality"]


def cases(tier):
    out = []
    spins = np.linspace(0, 1, 9 if tier == "quick" else 17)
    fr = (0.0, 0.3, -0.3, 0.7, -0.999) + ((0.1, 0.5, -0.8, 1.0) if tier == "thorough" else ())
    for mn, M in MASSES.items():
        out.append(dict(name="sch:%s" % mn, kind="sch", M=M, pars=[(0.0, 0.0)]))
        out.append(dict(name="kerr:%s" % mn, kind="kerr", M=M, pars=[(float(a), 0.0) for a in spins]))
        out.append(dict(name="kn:%s" % mn, kind="kn", M=M, pars=[(float(a), f) for a in spins for f in fr if a * a + f * f <= 1]))
    return out


def run_case(case, ctx):
    kind, M = case["kind"], case["M"]
    ang = np.linspace(0, np.pi, 13 if ctx.tier == "quick" else 41)
    alive = []
    if kind == "kn":
        naked(case, ctx)
    for a, f in case["pars"]:
        Q = charge(M, f)
        key = "%s:a%g:q%g" % (case["name"], a, f)
        g = make(kind, M, a, Q)
        s = g.singularities()
        ctx.step()
        ctx.state(key)
        ctx.check(set(s) == {"inner_ergosphere", "inner_horizon", "outer_horizon", "outer_ergosphere"}, key + ":keys", lambda: "%s: keys %s" % (key, sorted(s)))
        ref = knref.Ref(M, a, Q, 1, 1)
        m, al, rq = float(ref.m), float(ref.al), float(ref.rq)
        if kind == "sch":
            for k, v in (("inner_ergosphere", 0), ("inner_horizon", 0), ("outer_horizon", 2 * m), ("outer_ergosphere", 2 * m)):
                ctx.check(abs(float(s[k]) - v) <= 1e-9 * m, key + ":" + k, lambda: "%s: %s is %r, expected %r" % (key, k, s[k], v))
            ctx.trace()
            continue
        alive.append((key, g, s, m, al, rq))
    # the answers of every metric are evaluated while all the others exist, in both orders
    for rep in (alive, alive[::-1]):
        for key, g, s, m, al, rq in rep:
            h2 = float(knref.mp.mpf(1) * (m * m - al * al - rq * rq))
            h2 = max(h2, 0.0)
            tol = 1e-9 * m if h2 > 1e-6 * m * m else 1e-4 * m
            rp, rm = m + np.sqrt(h2), m - np.sqrt(h2)
            ctx.check(abs(s["outer_horizon"] - rp) <= tol, key + ":outer_horizon", lambda: "%s: outer horizon %r, expected %r" % (key, s["outer_horizon"], rp))
            ctx.check(abs(s["inner_horizon"] - rm) <= tol, key + ":inner_horizon", lambda: "%s: inner horizon %r, expected %r" % (key, s["inner_horizon"], rm))
            M, a, Q = g.M.si.value, g.a.si.value, g.Q.si.value
            for r0 in (s["outer_horizon"], s["inner_horizon"]):
                ctx.check(abs(g.delta(r0, M, a, Q)) <= 1e-9 * m * m, key + ":delta", lambda: "%s: Delta does not vanish at the horizon" % key)
            arr_o, arr_i = s["outer_ergosphere"](ang), s["inner_ergosphere"](ang)
            ctx.step(2)
            for i, th in enumerate(ang):
                e2 = max(m * m - (al * np.cos(th)) ** 2 - rq * rq, 0.0)
                tol = 1e-9 * m if e2 > 1e-6 * m * m else 1e-4 * m
                eo, ei = s["outer_ergosphere"](th), s["inner_ergosphere"](th)
                ctx.step(2)
                ctx.state(key, float(th))
                ctx.outcome(round(float(eo) / m, 6), round(float(ei) / m, 6))
                wo, wi = m + np.sqrt(e2), m - np.sqrt(e2)
                ctx.check(abs(eo - wo) <= tol, key + ":outer_ergosphere", lambda: "%s: outer ergosphere at %g is %r, expected %r" % (key, th, eo, wo))
                ctx.check(abs(ei - wi) <= tol, key + ":inner_ergosphere", lambda: "%s: inner ergosphere at %g is %r, expected %r" % (key, th, ei, wi))
                ctx.check(abs(arr_o[i] - eo) <= 1e-12 * m and abs(arr_i[i] - ei) <= 1e-12 * m, key + ":array", key + ": array of angles gives other radii")
                ctx.check(ei <= s["inner_horizon"] + tol and s["outer_horizon"] <= eo + tol, key + ":order", key + ": surfaces out of order")
                # the code's own g_tt changes sign there
                if e2 > 1e-4 * m * m:
                    lo = g.metric_covariant(np.array([0, eo * 0.9999, th, 0]))[0, 0]
                    hi = g.metric_covariant(np.array([0, eo * 1.0001, th, 0]))[0, 0]
                    ctx.step(2)
                    ctx.check(lo < 0 < hi, key + ":gtt", lambda: "%s: g_tt does not change sign at the ergosphere (th=%g): %r, %r" % (key, th, lo, hi))
            if h2 > 1e-4 * m * m:
                lo = g.metric_covariant(np.array([0, s["outer_horizon"] * 0.9999, 1.0, 0]))[1, 1]
                hi = g.metric_covariant(np.array([0, s["outer_horizon"] * 1.0001, 1.0, 0]))[1, 1]
                ctx.step(2)
                ctx.check(hi < 0 < lo, key + ":grr", key + ": g_rr does not change sign at the horizon")
            ctx.trace()


def naked(case, ctx):
    """More charge than a horizon can hide: g_rr has no pole, and g_tt has roots only near the axis of symmetry or nowhere"""
    M = case["M"]
    for a, f in itertools.product((0.0, 0.3, 0.9, 1.0), (0.5, -0.8, 1.0, 1.1, -1.7, 6.0)):
        if a * a + f * f <= 1.001:
            continue
        g = make("kn", M, a, charge(M, f))
        key = "%s:naked:a%g:q%g" % (case["name"], a, f)
        ref = knref.Ref(M, a, charge(M, f), 1, 1)
        m, al, rq = float(ref.m), float(ref.al), float(ref.rq)
        ctx.state(key)
        try:
            s = g.singularities()
        except Exception:       # refusing is an answer
            ctx.step()
            ctx.outcome("refused")
            continue
        ctx.step()

        def real(v):
            return np.isrealobj(np.asarray(v)) and np.isfinite(float(v)) or (np.iscomplexobj(np.asarray(v)) and abs(np.imag(v)) == 0 and np.isfinite(np.real(v)))
        for k in ("inner_horizon", "outer_horizon"):
            ctx.check(s[k] is None or not real(s[k]), key + ":" + k, lambda: "%s: %s is %r, but 1/g_rr has no real root" % (key, k, s[k]))
        for th in (0.0, 0.5, 1.0, np.pi / 2, 2.4, np.pi):
            e2 = m * m - (al * np.cos(th)) ** 2 - rq * rq
            for k, sgn in (("inner_ergosphere", -1), ("outer_ergosphere", 1)):
                v = s[k](th)
                ctx.step()
                ctx.state(key, k, th)
                ctx.outcome(k, real(v))
                if e2 < -1e-3 * m * m:
                    ctx.check(v is None or not real(v), key + ":" + k, lambda: "%s: %s at %g is %r, but g_tt has no real root there" % (key, k, th, v))
                elif e2 > 1e-3 * m * m:
                    ctx.check(abs(v - (m + sgn * np.sqrt(e2))) <= 1e-9 * m, key + ":" + k, lambda: "%s: %s at %g is %r, expected %r" % (key, k, th, v, m + sgn * np.sqrt(e2)))
        ctx.trace()
