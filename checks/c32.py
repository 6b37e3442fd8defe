"""Geodesic objects: the trajectory asked for, whatever the options, the history and the other objects alive."""
import functools
import itertools
import numpy as np
from mc.geo import *

PID = "C32"
LEVEL = "model_checking"
BOUND = {"quick": "10 metrics (by name and as callables) x 3 classes x Cartesian/spherical output x all pairs of changed options (steps, delta, order, omega, tolerances, warnings) against "
                  "the integrator driven by hand; prefixes of every length 1-6; every order of creating, reading and recomputing two geodesics (<= 4 operations); starts given as 8 kinds of container and number; unknown names; user metrics with 0-3 parameters in 3 containers",
         "thorough": "all triples of changed options; histories of <= 5 operations"}
ASSUMPTIONS = []
START = [
    ("Schwarzschild", (), (8., 1.3, 0.2), (0.1, 0.5, 3.5)), ("Kerr", (0.9,), (6., 1.3, -1.), (-.1, 1., 2.8)), ("Kerr", (0.0,), (6., 2.3, 4.), (-.1, 0., -2.8)),
    ("KerrNewman", (0.6, 0.3), (7., 2., 2.), (.05, -1., 3.1)), ("wavy", (0.11,), (.3, .5, .7), (.4, -.3, .5)), ("painleve", (), (40., 1.3, 0.), (.1, .5, 5.)),
    ("expanding", (0.05,), (.3, .5, .7), (.4, -.3, .5)), ("sheared", (), (3., .5, .7), (.4, -.3, .5)),
]
DEF = dict(steps=50, delta=0.5, rtol=1e-2, atol=1e-2, order=2, omega=1.0, suppress_warnings=False)
OPT = dict(steps=[1, 3, 7], delta=[0.1, -0.2], rtol=[1e-6], atol=[1.0], order=[4], omega=[0.05, 0.0], suppress_warnings=[True])
# values that are only asked for one at a time
ONE = dict(steps=[np.int64(2), 120], delta=[0.0, 1, -1, 0.001], rtol=[0, 1], atol=[0, 1], order=[6, 8], omega=[2, -1.0, 0], suppress_warnings=[1, np.True_])
CLS = {"Geodesic": (Geodesic, True), "GeodesicNull": (Geodesic, False), "Timelike": (Timelike, True), "Nulllike": (Nulllike, False)}


def cases(tier):
    out = []
    for i, (k, prm, q, p) in enumerate(START):
        out.append(dict(name="options:%s:%d" % (label(k, prm), i), opt=i))
        out.append(dict(name="prefix:%s:%d" % (label(k, prm), i), prefix=i))
    out += [dict(name="history:%d:%d" % (i, j), hist=i, other=j) for i in range(4) for j in range(4)]
    return out + [dict(name="names", names=1), dict(name="params", params=1), dict(name="callables", callables=1), dict(name="precession", prec=1), dict(name="containers", cont=1)]


def build(cls, k, prm, q, p, cart=None, by_name=True, **kw):
    c, tl = CLS[cls]
    metric = k if by_name and k in FUN else fun(k)
    if cls == "GeodesicNull":
        kw["time_like"] = False
    if cart is not None:
        kw["return_cartesian"] = cart
    return c(metric=metric, metric_params=prm, position=q, momentum=p, **kw)


def by_hand(k, prm, q, P, tl, o):
    s = integrate(fun(k), prm, [0.0] + list(q), P, o["steps"], o["delta"], o["order"], o["omega"], tl)
    return np.array([np.concatenate((x[0], x[1])) for x in s])


def to_cart(y):
    o = y.copy()
    r, th, ph = y[:, 1], y[:, 2], y[:, 3]
    o[:, 1], o[:, 2], o[:, 3] = r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)
    return o


def traj(ctx, g, key, n):
    t = g.trajectory
    ok = isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], np.ndarray)
    if not ctx.check(ok and np.array_equal(np.asarray(t[0]), np.arange(n)) and t[1].shape == (n, 8) and t[1].dtype.kind == "f", key + ":shape",
                     lambda: "%s: step counter %s and array of shape %s for %d steps" % (key, t[0], getattr(t[1], "shape", None), n)):
        return None
    return t[1]


def close_(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-11)


def powers(x, *prm):
    """only negative powers of the coordinates"""
    m = np.zeros((4, 4), dtype=object)
    m[0, 0], m[1, 1], m[2, 2], m[3, 3] = -1 - x[1] ** -1, 1 + 3 * x[1] ** -2, x[1] ** -2, x[1] ** -2 * x[2] ** -1
    return m


def containers(ctx):
    """whole numbers, tuples, lists and arrays: the same start"""
    wrap = {"tuple": tuple, "list": list, "array": np.array, "float": lambda v: [float(x) for x in v], "int64": lambda v: np.array(v, dtype=np.int64), "int32": lambda v: np.array(v, dtype=np.int32),
            "float64": lambda v: [np.float64(x) for x in v], "mixed": lambda v: (v[0], float(v[1]), np.int64(v[2]))}
    for (m, prm), (q, p), (cls, (c, tl)) in itertools.product((("Schwarzschild", ()), ("Kerr", (0.5,)), ("KerrNewman", (0.5, 0.25)), (powers, ())), (((10, 2, 1), (0, 0, 3)), ((9, 1, -2), (1, -1, 4))), CLS.items()):
        kw = dict(time_like=False) if cls == "GeodesicNull" else {}
        base = c(metric=m, metric_params=prm, position=[float(x) for x in q], momentum=[float(x) for x in p], steps=2, suppress_warnings=True, **kw)
        for (a, fa), (b, fb) in itertools.product(wrap.items(), repeat=2):
            if a != b and "float" not in (a, b):
                continue
            key = "containers:%s:%s:%s:%s:%s" % (m if isinstance(m, str) else "powers", q, cls, a, b)
            ctx.state(key)
            qq, pp = fa(q), fb(p)
            g = c(metric=m, metric_params=prm, position=qq, momentum=pp, steps=2, suppress_warnings=True, **kw)
            ctx.step(2)
            y = traj(ctx, g, key, 2)
            ctx.check(y is not None and close_(y, base.trajectory[1]), key, lambda: "%s: %s instead of %s" % (key, y, base.trajectory[1]))
            ctx.check(list(qq) == list(q) and list(pp) == list(p), key + ":inputs", key + ": the arguments changed")
        ctx.outcome(str(m), q, cls)
        ctx.trace()


def run_case(case, ctx):
    if "cont" in case:
        return containers(ctx)
    if "opt" in case:
        k, prm, q, p = START[case["opt"]]
        n_ = 3 if ctx.tier == "thorough" else 2
        names = sorted(OPT)
        combos = [()]
        for m in range(1, n_ + 1):
            for sub in itertools.combinations(names, m):
                combos += list(itertools.product(*[[(s, v) for v in OPT[s]] for s in sub]))
        nfull = len(combos)
        combos += [((s, v),) for s in sorted(ONE) for v in ONE[s]]
        cache = {}
        for ci, combo in enumerate(combos):
            kw = dict(combo)
            if combo and "steps" not in kw:
                kw["steps"] = 4
            o = dict(DEF, **kw)
            for cls in CLS:
                if len(combo) > 1 and (ci + len(cls)) % 3 or not combo and cls == "GeodesicNull":
                    continue
                for cart in (None, False):
                    if ci >= nfull and (ci + len(cls) + (cart is None)) % 3:
                        continue
                    if not combo and cls == "Geodesic" and cart is None:
                        continue
                    key = "%s:%s:%s:%s" % (case["name"], cls, cart, sorted(kw.items()))
                    args = (list(q), list(p))
                    g = build(cls, k, prm, args[0], args[1], cart, by_name=ci % 2 == 0, **kw)
                    ctx.step(int(o["steps"]))
                    ctx.state(key)
                    y = traj(ctx, g, key, o["steps"])
                    if y is None:
                        continue
                    ck = (CLS[cls][1], o["steps"], o["delta"], o["order"], o["omega"])
                    if ck not in cache:
                        cache[ck] = by_hand(k, prm, q, g.momentum, CLS[cls][1], o)
                    want = cache[ck] if cart is False else to_cart(cache[ck])
                    ctx.outcome(np.round(y[-1], 6).tobytes())
                    ctx.check(close_(y, want), key, lambda: "%s: last row %s, expected %s" % (key, y[-1], want[-1]))
                    ctx.check(args == (list(q), list(p)), key + ":inputs", key + ": the arguments were changed")
                    ctx.check(g.coords == ("Cartesian" if cart is None else "Spherical Polar") and g.metric_name == (k if k in FUN and ci % 2 == 0 else fun(k).__name__),
                              key + ":names", lambda: "%s: coords %s, metric %s" % (key, g.coords, g.metric_name))
                    ctx.trace()
        return
    if "prefix" in case:
        k, prm, q, p = START[case["prefix"]]
        for order, om in ((2, 1.0), (4, 0.1)):
            for tl in ("Timelike", "Nulllike"):
                for cart in (True, False):
                    full = None
                    for n in (6, 1, 2, 3, 4, 5, 6):
                        g = build(tl, k, prm, q, p, cart, steps=n, order=order, omega=om, delta=0.3, suppress_warnings=True)
                        ctx.step(n)
                        key = "%s:%s:%s:o%d:n%d" % (case["name"], tl, cart, order, n)
                        ctx.state(key)
                        y = traj(ctx, g, key, n)
                        if y is None:
                            return
                        full = y if full is None else full
                        ctx.check(close_(y, full[:n]), key, lambda: "%s: row depends on how many steps follow" % key)
                        again = g.calculate_trajectory(steps=n, order=order, omega=om, delta=0.3, suppress_warnings=True)
                        ctx.check(close_(again[1], y) and np.array_equal(again[0], np.arange(n)), key + ":again", "%s: recomputing gives something else" % key)
                        # other containers for the same initial data
                        g2 = build(tl, k, tuple(prm), np.array(q), tuple(p), cart, steps=n, order=order, omega=om, delta=0.3, suppress_warnings=True)
                        ctx.check(close_(g2.trajectory[1], y), key + ":containers", "%s: depends on the container of the initial data" % key)
                        ctx.trace()
        return
    if "hist" in case:
        # operations on two live geodesics; every word up to the depth
        specs = [(START[1], "Timelike", True, dict(steps=3, delta=0.3)), (START[1], "Nulllike", True, dict(steps=2, delta=0.3)), (START[3], "Timelike", False, dict(steps=3, order=4, delta=0.2)),
                 (START[0], "Nulllike", True, dict(steps=2, omega=0.2))]
        a = case["hist"]
        for b in [case["other"]]:
            fresh = {}
            for s in (a, b):
                (k, prm, q, p), cls, cart, kw = specs[s]
                fresh[s] = build(cls, k, prm, q, p, cart, suppress_warnings=True, **kw).trajectory[1].copy()
                other = dict(kw, steps=kw["steps"] + 1, delta=0.11)
                fresh[s, "o"] = build(cls, k, prm, q, p, cart, suppress_warnings=True, **other).trajectory[1].copy()
            depth = 4 if ctx.tier == "quick" else 5
            ops = [("new", 0), ("new", 1), ("read", 0), ("read", 1), ("calc", 0), ("calc", 1), ("calcother", 0)]
            for word in itertools.product(ops, repeat=depth - 2):
                word = (("new", 0), ("new", 1)) + word
                obj = [None, None]
                for op, w in word:
                    s = (a, b)[w]
                    (k, prm, q, p), cls, cart, kw = specs[s]
                    if op == "new":
                        obj[w] = build(cls, k, prm, q, p, cart, suppress_warnings=True, **kw)
                        got, want = obj[w].trajectory[1], fresh[s]
                    elif op == "read":
                        got, want = obj[w].trajectory[1], fresh[s]
                    elif op == "calc":
                        got, want = obj[w].calculate_trajectory(suppress_warnings=True, **kw)[1], fresh[s]
                    else:
                        got, want = obj[w].calculate_trajectory(suppress_warnings=True, **dict(kw, steps=kw["steps"] + 1, delta=0.11))[1], fresh[s, "o"]
                    ctx.step()
                    ctx.state(a, b, word[:3], op)
                    ctx.check(close_(got, want), "history:%d:%d:%s" % (a, b, op), lambda: "history %s: %s of geodesic %d gives another trajectory" % (word, op, w))
                for w in (0, 1):
                    ctx.check(close_(obj[w].trajectory[1], fresh[(a, b)[w]]), "history:%d:%d:end" % (a, b), lambda: "history %s: the stored trajectory of geodesic %d changed" % (word, w))
                ctx.trace()
        return
    if "names" in case:
        for bad in ("kerr", "", "Kerr ", "Minkowski", "schwarzschild", "KerrNewmann", None, 3, 2.5):
            for cls in (Geodesic, Timelike, Nulllike):
                ctx.state("name", str(bad), cls.__name__)
                ctx.raises(NotImplementedError, lambda: cls(metric=bad, metric_params=(0.5,), position=[6., 1., 0.], momentum=[0., 1., 2.], steps=1),
                           "name:%r:%s" % (bad, cls.__name__), "metric %r for %s" % (bad, cls.__name__))
        # Schwarzschild has no parameters: whatever is passed is not used
        base = Timelike(metric="Schwarzschild", metric_params=(), position=[6., 1., 0.], momentum=[0., 1., 2.], steps=3, suppress_warnings=True)
        for prm in ((0.0,), (0.5,), (0.5, 0.3), [0.9]):
            g = Timelike(metric="Schwarzschild", metric_params=prm, position=[6., 1., 0.], momentum=[0., 1., 2.], steps=3, suppress_warnings=True)
            ctx.step(3)
            ctx.state("schwarzschild", str(prm))
            ctx.check(close_(g.trajectory[1], base.trajectory[1]), "schwarzschild:params", "Schwarzschild depends on metric_params")
        # limits between the named metrics
        for q, p in (((6., 1., 0.), (0.1, 1., 2.)), ((3., 2., 1.), (-0.1, 0., 2.))):
            for cls in CLS:
                ts = [build(cls, k, prm, q, p, False, steps=3, order=4, omega=0.1, delta=0.2, suppress_warnings=True).trajectory[1]
                      for k, prm in (("Schwarzschild", ()), ("Kerr", (0.0,)), ("KerrNewman", (0.0, 0.0)))]
                ts2 = [build(cls, k, prm, q, p, False, steps=3, order=4, omega=0.1, delta=0.2, suppress_warnings=True).trajectory[1]
                       for k, prm in (("Kerr", (0.7,)), ("KerrNewman", (0.7, 0.0)))]
                ctx.step(15)
                ctx.state("limits", cls, q)
                for t, w, nm in ((ts[1], ts[0], "Kerr(0)=Schwarzschild"), (ts[2], ts[0], "KerrNewman(0,0)=Schwarzschild"), (ts2[1], ts2[0], "KerrNewman(a,0)=Kerr(a)")):
                    ctx.check(np.allclose(t, w, rtol=1e-9, atol=1e-9), "limit:" + nm, lambda: "%s fails: %s, %s" % (nm, t[-1], w[-1]))
                ctx.trace()
        s = str(base)
        ctx.check(repr(base) == s and "Schwarzschild" in s and "Time-like" in s and "Cartesian" in s, "repr", "printed form misses the metric, kind or coordinates")
        return
    if "params" in case:
        # the user's metric is called with exactly the parameters given, whatever their number, type and container
        for prm in ((), (0.3,), (0.3, 2), (0.3, 2, -1.5), (1,), (0.0,), (np.float64(0.2), np.int64(3))):
            for cont in (tuple, list, np.array):
                for cls in CLS:
                    seen = []

                    def metric(x, *a):
                        seen.append((len(x), a))
                        return flat(x)
                    key = "params:%d:%s:%s" % (len(prm), cont.__name__, cls)
                    c, tl = CLS[cls]
                    kw = dict(time_like=False) if cls == "GeodesicNull" else {}
                    c(metric=metric, metric_params=cont(prm), position=[1., 2., 3.], momentum=[.4, 0., .3], steps=2, **kw)
                    ctx.step(2)
                    ctx.state(key, str(prm))
                    ctx.check(len(seen) > 4 and all(n == 4 and len(a) == len(prm) and all(u == w for u, w in zip(a, prm)) for n, a in seen), key,
                              lambda: "%s: metric with parameters %s was called with %s" % (key, prm, sorted({str(a) for n, a in seen})[:3]))
                    ctx.trace()
        return
    if "callables" in case:
        # every kind of callable is a metric function
        class Obj:
            def __init__(self, k):
                self.f = fun(k)

            def __call__(self, x, *a):
                return self.f(x, *a)

            def method(self, x, *a):
                return self.f(x, *a)

            @staticmethod
            def static(x, *a):
                return fun("Kerr")(x, *a)
        for k, prm, q, p in START:
            o = Obj(k)
            forms = dict(function=(fun(k), prm), lambda_=(lambda x, *a: fun(k)(x, *a), prm), partial=(functools.partial(fun(k)), prm), method=(o.method, prm), instance=(o, prm))
            if prm and k in FUN:
                forms["bound"] = (functools.partial(lambda *a: fun(k)(a[-1], *a[:-1]), *prm), ())
            if k == "Kerr":
                forms["static"] = (Obj.static, prm)
            for cls in CLS:
                want = None
                for nm, (f, a) in forms.items():
                    key = "callables:%s:%s:%s" % (label(k, prm), cls, nm)
                    c, tl = CLS[cls]
                    kw = dict(time_like=False) if cls == "GeodesicNull" else {}
                    g = c(metric=f, metric_params=a, position=list(q), momentum=list(p), steps=3, order=4, omega=0.1, delta=0.2, suppress_warnings=True, **kw)
                    ctx.step(3)
                    ctx.state(key)
                    y = traj(ctx, g, key, 3)
                    if y is None:
                        continue
                    want = y if want is None else want
                    ctx.check(close_(y, want), key, lambda: "%s: last row %s, as a function %s" % (key, y[-1], want[-1]))
                    ctx.check(isinstance(str(g), str), key + ":str", key + ": cannot be printed")
                    ctx.trace()
        return
    from einsteinpy.examples import precession
    g = precession()
    ctx.step(5500)
    ctx.state("precession")
    n, y = g.trajectory
    ctx.check(len(n) == len(y) == 5500 and isinstance(g, Timelike), "precession:shape", "precession example: %d rows" % len(y))
    r = np.sqrt((y[:, 1:4] ** 2).sum(1))
    ctx.outcome(round(r.min(), 2), round(r.max(), 2))
    # analytic turning points of the orbit: E^2 = (1 - 2/r)(1 + L^2/r^2) with p_r = 0 at r = 40
    L = 3.83405
    E2 = (1 - 2 / 40.) * (1 + L ** 2 / 1600.)
    roots = np.roots([E2 - 1, 2, -L ** 2, 2 * L ** 2])
    rp = sorted(x.real for x in roots if abs(x.imag) < 1e-9)
    ctx.check(abs(r.max() - 40) < 0.2 and abs(r.min() - rp[1]) < 0.05 * rp[1], "precession:turning", lambda: "orbit between %g and %g, expected %s" % (r.min(), r.max(), rp))
    ctx.check(np.all(abs(y[:, 3]) < 1e-6 * 40), "precession:plane", "the equatorial orbit leaves the plane")
    ctx.check(np.allclose(y[:, 7], L, atol=5e-2), "precession:L", lambda: "angular momentum drifts: %g..%g" % (y[:, 7].min(), y[:, 7].max()))
    ctx.trace()
