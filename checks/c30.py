"""Order and consistency of the geodesic integrators."""
import itertools
import numpy as np
from einsteinpy.geodesic.utils import _P
from mc.geo import *

PID = "C30"
LEVEL = "model_checking"
BOUND = {"quick": "18 initial conditions over 4 built-in and 6 user metrics x orders 2,4,6,8 x couplings 0.02, 0.5 x time-like/light-like x forwards/backwards (the combinations are thinned over the conditions), 3 step sizes, "
                  "every state along the way; every order -1..10 accepted or refused; all pairs of integrators interleaved",
         "thorough": "couplings 0.02, 0.1, 0.5, both kinds everywhere, 4 step sizes, twice the length"}
ASSUMPTIONS = ["the exact geodesic is the solution of Hamilton's equations of the symbolic metric (DOP853, rtol 1e-13)",
               "the order is judged from the last halving of the step whose errors are above rounding; it may exceed the nominal one"]
START = [
    ("Schwarzschild", (), (0, 8., 1.3, 0.), (0.1, 0.5, 3.5)), ("Schwarzschild", (), (0, 4., 1.3, 0.), (-0.4, 1.5, 1.5)), ("Schwarzschild", (), (0, 30., np.pi / 2, 2.), (0, 0, 4.)),
    ("Kerr", (0.9,), (0, 6., 1.3, 0.), (-.1, 1., 2.8)), ("Kerr", (0.998,), (0, 3., .6, 0.), (.1, 1., -.8)), ("Kerr", (-0.5,), (0, 6., 2.3, 1.), (-.1, 1., 2.8)),
    ("KerrNewman", (0.6, 0.3), (0, 7., 2., 0.), (.05, -1., 3.1)), ("KerrNewman", (0.3, -0.8), (0, 5., 1., 0.), (.05, 0., -3.1)), ("KerrNewman", (0.0, 0.9), (0, 5., 1., 0.), (.3, 1., 2.)),
    ("wavy", (0.11,), (0, .3, .5, .7), (.4, -.3, .5)), ("wavy", (0.07,), (0, -2., 1.5, .7), (-.4, .3, .5)),
    ("painleve", (), (0, 8., 1.3, 0.), (.1, .5, 3.5)), ("painleve", (), (0, 5., 2.3, 0.), (-.5, .5, -1.5)),
    ("expanding", (0.05,), (0, .3, .5, .7), (.4, -.3, .5)), ("expanding", (-0.1,), (0, .3, .5, .7), (-.4, .3, 1.5)), ("rindler", (), (0, 3., .5, .7), (.4, -.3, .5)),
    ("sheared", (), (0, 3., .5, .7), (.4, -.3, .5)), ("flat", (), (0, 3., .5, .7), (.4, -.3, .5)),
]
NS = {2: (16, 32, 64), 4: (4, 8, 16), 6: (4, 8, 16), 8: (2, 4, 8)}


def cases(tier):
    out = []
    oms = (0.02, 0.5) if tier == "quick" else (0.02, 0.1, 0.5)
    for i, (k, prm, q, p) in enumerate(START):
        for order in (8, 6, 4, 2):
            for om in oms:
                tls = (True, False) if tier != "quick" or i % 2 == 0 else (True,)
                for tl in tls:
                    for T in ((1.0, -0.8) if tier == "quick" else (1.0, -0.8, 2.0)):
                        if tier == "quick" and k == "wavy" and order == 8 and (i != 9 or om != 0.02 or not tl or T < 0):
                            continue
                        if tier == "quick" and ((T < 0 and (om != 0.02 or i % 2)) or (om == 0.5 and (not tl or (i % 2 == 0 and order == 8)))):
                            continue
                        out.append(dict(name="%s:%d:o%d:w%g:%s:T%g" % (label(k, prm), i, order, om, "t" if tl else "n", T), i=i, order=order, om=om, tl=tl, T=T))
    return out + [dict(name="orders", orders=1)] + [dict(name="interleave%d" % i, inter=i) for i in range(6)]


def series(f, prm, q0, p0, n, T, order, om, tl, r):
    """all states of n steps, and the exact ones"""
    s = integrate(f, prm, q0, p0, n, T / n, order, om, tl)
    y = np.array([np.concatenate((x[0], x[1])) for x in s])
    z = np.array([np.concatenate((x[2], x[3])) for x in s])
    sol = solve_ivp(r.rhs, (0, T), np.concatenate((q0, p0)), method="DOP853", rtol=1e-13, atol=1e-14, t_eval=[T * (i + 1) / n for i in range(n)])
    ex = sol.y.T
    return max(np.max(abs(y - ex) / (1 + abs(ex))), np.max(abs(z - ex) / (1 + abs(ex))))


def run_case(case, ctx):
    if "orders" in case:
        for order in list(range(-1, 11)) + [2.0, 4.5, 12, "2", None]:
            ctx.state("order", str(order))
            mk = lambda: GeodesicIntegrator(metric=FUN["Kerr"], metric_params=(0.5,), q0=[0, 6., 1., 0.], p0=[-.9, 0., 1., 2.], order=order)
            mg = lambda: Geodesic(metric="Kerr", metric_params=(0.5,), position=[6., 1., 0.], momentum=[0., 1., 2.], steps=1, order=order, suppress_warnings=True)
            if order in (2, 4, 6, 8):
                ctx.step(2)
                try:
                    mk(), mg()
                    ok = True
                except NotImplementedError:
                    ok = False
                ctx.check(ok, "order:%s" % order, "order %s is refused" % order)
            else:
                ctx.raises(NotImplementedError, mk, "order:%s" % order, "integrator of order %s" % order)
                ctx.raises(NotImplementedError, mg, "geodesic order:%s" % order, "geodesic of order %s" % order)
        return
    if "inter" in case:
        # several integrators alive at once, stepped in every interleaving of two
        specs = [(START[0], 2, 0.5, 0.5), (START[3], 4, 0.1, 0.25), (START[6], 2, 1.0, 0.5), (START[13], 6, 0.1, 0.1), (START[3], 2, 0.1, 0.5), (START[3], 2, 0.5, 0.5)]

        def build(s):
            (k, prm, q, p), order, om, d = s
            p0 = np.asarray(_P(fun(k), prm, np.array(q, float), np.array(p, float)), dtype=float)
            return GeodesicIntegrator(metric=fun(k), metric_params=prm, q0=np.array(q, float), p0=p0, steps=3, delta=d, order=order, omega=om, suppress_warnings=True)

        alone = []
        for s in specs:
            g = build(s)
            for _ in range(3):
                g.step()
            alone.append(np.array([np.array(x, dtype=float) for x in g.results]))
        words = [w for w in itertools.product((0, 1), repeat=6) if sum(w) == 3]
        for i, j in itertools.permutations(range(len(specs)), 2):
            if i != case["inter"]:
                continue
            for w in words[:: 1 if ctx.tier == "thorough" else 5]:
                a = (build(specs[i]), build(specs[j]))
                for x in w:
                    a[x].step()
                    ctx.step()
                ctx.state("interleave", i, j, w)
                for g, n in zip(a, (i, j)):
                    res = np.array([np.array(x, dtype=float) for x in g.results])
                    ctx.check(res.shape == alone[n].shape and np.allclose(res, alone[n], rtol=1e-13, atol=1e-13), "interleave:%d:%d" % (i, j), "stepping two integrators in turn changes a result")
                ctx.trace()
        return
    k, prm, q, p = START[case["i"]]
    f, r = fun(k), ref(k, tuple(prm))
    order, om, tl, T = case["order"], case["om"], case["tl"], case["T"]
    q0 = np.array(q, dtype=float)
    p0 = np.asarray(_P(f, prm, q0, np.array(p, dtype=float), tl), dtype=float)
    ns = NS[order]
    if abs(T) > 1:
        ns = tuple(2 * n for n in ns)
    errs = []
    for n in ns:
        errs.append(series(f, prm, q0, p0, n, T, order, om, tl, r))
        ctx.step(n)
        ctx.state(case["name"], n)
        ctx.outcome(case["name"], n, "%.1e" % errs[-1])
    ctx.trace(len(ns))
    flat_ = k in ("flat", "sheared")
    if flat_:
        ctx.check(max(errs) < 1e-12, case["name"] + ":straight", lambda: "%s: straight line missed by %s" % (case["name"], errs))
        return
    obs = [(np.log2(a / b), b) for a, b in zip(errs, errs[1:]) if b > 3e-13]
    if not obs:
        ctx.check(errs[-1] < 1e-11, case["name"] + ":small", lambda: "%s: errors %s" % (case["name"], errs))
        return
    # nominal order from the finest halving above rounding; large couplings approach it from below
    need = order - (0.35 if om < 0.3 else 0.6) - (0.3 if len(obs) < len(errs) - 1 else 0)
    ctx.check(obs[-1][0] >= need, case["name"] + ":order", lambda: "%s: errors %s with steps %s give order %.2f" % (case["name"], ["%.2e" % e for e in errs], ns, obs[-1][0]))
    ctx.check(errs[-1] < {2: 1e-4, 4: 2e-5, 6: 1e-6, 8: 5e-7}[order], case["name"] + ":converges", lambda: "%s: error %.2e with %d steps" % (case["name"], errs[-1], ns[-1]))
