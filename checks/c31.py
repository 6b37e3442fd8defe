"""Structure of the integrator: symplectic, reversible, equivariant under the symmetries of the metric."""
import itertools
import numpy as np
from einsteinpy.geodesic.utils import _P
from mc.geo import *

PID = "C31"
LEVEL = "model_checking"
BOUND = {"quick": "11 initial conditions (built-in and user metrics) x orders 2,4,6,8 x couplings 0, 0.001, 0.1, 1, 3 x step sizes +-0.4, 0.1 (far out +-5, 1.3); histories of 1-3 steps; forward-back walks; "
                  "translations, reflections and the mean momentum of cyclic coordinates", "thorough": "histories of up to 5 steps, 6 couplings, 4 step sizes"}
ASSUMPTIONS = ["symplecticity is measured on the Jacobian of the map from initial data to both copies (central differences, 1e-6)"]
START = [
    ("Schwarzschild", (), (0, 8., 1.3, 0.), (0.1, 0.5, 3.5)), ("Kerr", (0.9,), (0, 6., 1.3, 0.), (-.1, 1., 2.8)), ("Kerr", (-0.5,), (0, 6., 2.3, 1.), (-.1, 1., 2.8)),
    ("KerrNewman", (0.6, 0.3), (0, 7., 2., 0.), (.05, -1., 3.1)), ("wavy", (0.11,), (0, .3, .5, .7), (.4, -.3, .5)), ("painleve", (), (0, 8., 1.3, 0.), (.1, .5, 3.5)),
    ("Schwarzschild", (), (-40., 90., 1.3, 9.), (.02, 0.5, 8.5)), ("Kerr", (0.6,), (0, 150., 1.3, 0.), (-.02, 1., 9.)),
    ("expanding", (0.05,), (0, .3, .5, .7), (.4, -.3, .5)), ("rindler", (), (0, 3., .5, .7), (.4, -.3, .5)), ("sheared", (), (0, 3., .5, .7), (.4, -.3, .5)),
]
BH = ("Schwarzschild", "Kerr", "KerrNewman")


def cases(tier):
    out = []
    for i, (k, prm, q, p) in enumerate(START):
        for order in (8, 6, 4, 2):
            out.append(dict(name="%s:%d:o%d" % (label(k, prm), i, order), i=i, order=order))
    return out


def run_case(case, ctx):
    k, prm, q, p = START[case["i"]]
    order, tier = case["order"], ctx.tier
    f = fun(k)
    q0 = np.array(q, dtype=float)
    p0 = np.asarray(_P(f, prm, q0, np.array(p, dtype=float)), dtype=float)
    big = {2: 3, 4: 2, 6: 1 + (case["i"] == 0), 8: 1}[order] + (2 if tier == "thorough" and order < 8 else 0)
    om8 = (0.0, 0.1, 1.0, 3.0, 1e-3) if order < 8 or tier == "thorough" else (0.1, 1.0)
    if k == "wavy" and order >= 6:
        om8, big = (0.3, 1e-3), 1
    if tier == "thorough":
        om8 = om8 + (0.4,)
    dls = (0.4, -0.4, 0.1) if order < 8 else (0.2, -0.2)
    if order == 6:
        dls = (0.25, -0.25)
    if q[1] > 50:   # far out the steps may be long
        dls, om8, big = ((5.0, -5.0, 1.3), (0.0, 0.02, 0.3), min(big, 2)) if order < 8 else ((-5.0,), (0.02,), 1)
    J8 = np.block([[np.zeros((4, 4)), np.eye(4)], [-np.eye(4), np.zeros((4, 4))]])
    for om, dl in itertools.product(om8, dls):
        key = "%s:w%g:d%g" % (case["name"], om, dl)
        n = big

        def run(y):
            ctx.step(n)
            return [np.concatenate(s) for s in integrate(f, prm, y[:4], y[4:], n, dl, order, om)]

        y0 = np.concatenate((q0, p0))
        base = run(y0)
        if not ctx.check(np.all(np.isfinite(base)), key + ":finite", key + ": not finite"):
            continue
        # symplectic: pull the two-copy form back to the initial data
        if tier == "thorough" or (om == 0.3 or (om == 1.0 and dl > 0 and (order < 8 or case["i"] % 2)) or (om == 0.1 and dl < 0 and order < 6) or (om == 1e-3 and dl > 0 and order == 2)):
            h = 3e-5
            cols = []
            for c in range(8):
                e = np.zeros(8)
                e[c] = h
                a, b = run(y0 + e), run(y0 - e)
                # Richardson: removes the cubic term of the difference
                a2, b2 = run(y0 + 2 * e), run(y0 - 2 * e)
                cols.append([(8 * (u - v) - (u2 - v2)) / (12 * h) for u, v, u2, v2 in zip(a, b, a2, b2)])
            for s in range(n):
                D = np.array([col[s] for col in cols]).T  # 16 x 8
                d1, d2 = D[:8], D[8:]
                W = d1.T @ J8 @ d1 + d2.T @ J8 @ d2
                ctx.state(key, s)
                err = np.max(abs(W - 2 * J8)) / (1 + np.max(abs(D)) ** 2)
                ctx.outcome(key, s, "%.0e" % err)
                ctx.check(err < 1e-7, key + ":symplectic", lambda: "%s: after %d steps the symplectic form is off by %.2e" % (key, s + 1, err))
                ctx.trace()
        # reversible: n steps, then n steps back
        gi = GeodesicIntegrator(metric=f, metric_params=prm, q0=q0.copy(), p0=p0.copy(), steps=2 * n, delta=dl, order=order, omega=om, suppress_warnings=True)
        for _ in range(n):
            gi.step()
        gi.delta = -dl
        for _ in range(n):
            gi.step()
        res = [np.concatenate(np.array([np.asarray(z, dtype=float) for z in s])) for s in gi.results]
        fwd = [np.concatenate(s) for s in integrate(f, prm, q0, p0, 2 * n, dl, order, om)]
        ctx.step(4 * n)
        if not np.allclose(res[-1], fwd[-1], rtol=1e-9, atol=1e-12):  # the step size can be changed under way
            path = [np.concatenate((y0, y0))] + res[:n]
            for s in range(n):
                got, want = res[n + s], path[n - 1 - s]
                ctx.check(np.allclose(got, want, rtol=1e-8, atol=1e-8), key + ":reversible", lambda: "%s: %d steps back give %s, expected %s" % (key, s + 1, got, want))
            ctx.trace()
        # symmetries
        sym = []
        if k in BH:
            sh = np.zeros(8)
            sh[0], sh[3] = 3.7, -1.1
            sym.append(("translation in t and phi", lambda y: y + sh, prm))
            mi = np.ones(8)
            mi[2] = mi[6] = -1
            off = np.zeros(8)
            off[2] = np.pi
            sym.append(("reflection in the equator", lambda y: y * mi + off, prm))
            mp_ = np.ones(8)
            mp_[3] = mp_[7] = -1
            sym.append(("reversal of phi and spin", lambda y: y * mp_, (-prm[0],) + tuple(prm[1:]) if prm else prm))
            cyc = (0, 3)
        elif k == "painleve":
            cyc = (0, 3)
        elif k == "expanding":
            cyc = (1, 2, 3)
            perm = [0, 2, 3, 1, 4, 6, 7, 5]
            sym.append(("permutation of x, y, z", lambda y: y[perm], prm))
        elif k == "rindler":
            cyc = (0, 2, 3)
        elif k == "sheared":
            cyc = (0, 1, 2, 3)
        else:
            cyc = ()
        for nm, g, prm2 in sym:
            im = [np.concatenate(s) for s in integrate(f, prm2, g(y0)[:4], g(y0)[4:], n, dl, order, om)]
            ctx.step(n)
            for s in range(n):
                want = np.concatenate((g(base[s][:8]), g(base[s][8:])))
                ctx.check(np.allclose(im[s], want, rtol=1e-9, atol=1e-9), "%s:%s" % (key, nm), lambda: "%s: not equivariant under %s: %s, expected %s" % (key, nm, im[s], want))
            ctx.trace()
        for c in cyc:
            for s in range(n):
                m = (base[s][4 + c] + base[s][12 + c]) / 2
                ctx.check(abs(m - y0[4 + c]) <= 1e-11 * (1 + abs(y0[4 + c])), "%s:cyclic%d" % (key, c), lambda: "%s: mean momentum %d changes from %.15g to %.15g" % (key, c, y0[4 + c], m))
                if om == 0.0:
                    ctx.check(abs(base[s][4 + c] - y0[4 + c]) <= 1e-11 * (1 + abs(y0[4 + c])), "%s:cyclic%d:uncoupled" % (key, c), lambda: "%s: momentum %d of the first copy changes" % (key, c))
