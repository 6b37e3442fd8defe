"""User-defined metrics: BaseMetric adds the perturbation everywhere and inverts what it reports."""
import itertools
import numpy as np
import astropy.units as u
from mc.num import *

PID = "C23"
LEVEL = "model_checking"
BOUND = {"quick": "9 user metrics (fresh, integer, one stored array, one array per point) x 9 perturbations (one not symmetric) x 8 points (12 where regular, the origin and negative coordinates included) x all call sequences of length 3 over (cov, contra, user function)", "thorough": "length 4"}
ASSUMPTIONS = []

eta = np.diag([1., -1., -1., -1.])


def vecfun(kind):
    def mink(x):
        return eta.copy()

    def sph_(x):
        return np.diag([1., -1., -x[1] ** 2, -(x[1] * np.sin(x[2])) ** 2])

    def schw(x):
        f = 1 - 2 / x[1]
        return np.diag([f, -1 / f, -x[1] ** 2, -(x[1] * np.sin(x[2])) ** 2])

    def rot(x):
        m = sph_(x)
        m[0, 3] = m[3, 0] = 0.3 * x[1]
        return m

    def full(x):
        m = eta + 0.05 * (np.arange(16).reshape(4, 4) + np.arange(16).reshape(4, 4).T) / 16 * np.cos(x[0] + x[3])
        return m

    def frw(x):
        return np.diag([1.] + [-(1 + x[0] ** 2)] * 3)
    one = eta.copy()

    def stored(x):          # hands out the same array every time
        return one

    def integer(x):
        return np.diag([1, -1, -1, -1])
    memo = {}

    def cached(x):          # one stored array per point
        k = tuple(float(v) for v in x)
        if k not in memo:
            memo[k] = schw(x)
        return memo[k]
    return locals()[kind]


def pert(kind):
    if kind == "none":
        return None
    if kind == "zero":
        return lambda x: np.zeros((4, 4))
    if kind == "diag":
        return lambda x: np.diag([0.01, 0.02, -0.03, 0.01])
    if kind == "kerrschild":
        def f(x):
            l = np.array([1., 1., 0.1 * x[1], 0.2])
            return 0.05 / x[1] * np.outer(l, l)
        return f
    if kind == "wave":
        def f(x):
            m = np.zeros((4, 4))
            m[1, 1], m[2, 2] = 1e-3 * np.cos(x[0]), -1e-3 * np.cos(x[0])
            m[1, 2] = m[2, 1] = 5e-4 * np.sin(x[0])
            return m
        return f
    if kind == "stored":
        one = 0.02 * np.ones((4, 4)) + np.diag([0.01, 0.02, -0.03, 0.01])
        return lambda x: one
    if kind == "skew":
        return lambda x: 0.03 * np.arange(16).reshape(4, 4) / x[1]
    if kind == "big":
        return lambda x: 2.5 * np.eye(4) * (1 + x[0] ** 2 * 0.01)
    return lambda x: np.full((4, 4), 0.013) + np.diag([0, 0, 0, x[1] * 1e-3])


FUN = ("mink", "sph_", "schw", "rot", "full", "frw", "stored", "integer", "cached")
PER = ("none", "zero", "diag", "kerrschild", "wave", "big", "full", "stored", "skew")
PTS = list(itertools.product((0.0, 1.3), (3.0, 40.0), (0.7, 2.0), (0.4,)))

ORIGIN = [(0.0, 0.0, 0.0, 0.0), (1.3, 0.0, 0.0, 0.4), (1.3, -3.0, -2.0, 0.0), (-2.0, 5.0, 0.0, -7.0)]


def cases(tier):
    return [dict(name="%s+%s" % (f, p), f=f, p=p) for f in FUN for p in PER]


def run_case(case, ctx):
    f, p = vecfun(case["f"]), pert(case["p"])
    fw, pw = vecfun({"stored": "mink", "integer": "mink", "cached": "schw"}.get(case["f"], case["f"])), pert(case["p"])
    depth = 3 if ctx.tier == "quick" else 4
    for seq in itertools.product(("cov", "contra", "user"), repeat=depth):
        g = BaseMetric(coords=sph(), M=1e30 * u.kg, a=0.1 * u.one, Q=0 * u.C, name="mine", metric_cov=f, perturbation=p)
        regular = case["f"] in ("mink", "full", "frw", "stored", "integer") and case["p"] not in ("kerrschild", "skew")
        for i, x in enumerate(PTS + ORIGIN if regular else PTS):
            for j, op in enumerate(seq):
                for form in (np.array(x),) + ((list(x), x) if j == 0 else ()):
                    want = fw(np.array(x))
                    if p is not None and op != "user":
                        want = want + pw(np.array(x))
                    if op == "contra":
                        want = np.linalg.inv(want)
                    fn = {"cov": g.metric_covariant, "contra": g.metric_contravariant, "user": g.metric_cov}[op]
                    got = fn(form)
                    ctx.step()
                    key = "%s:%s:%d" % (case["name"], op, i)
                    ctx.state(case["name"], seq[:j + 1], i, type(form).__name__)
                    ctx.outcome(np.asarray(got).tobytes())
                    ctx.check(np.allclose(got, want, rtol=1e-10, atol=1e-13), key, lambda: "%s after %s: %s, expected %s" % (key, seq[:j], got, want))
            ctx.trace()
    g = BaseMetric(coords=sph(), M=1e30 * u.kg, metric_cov=f, perturbation=p, christoffels=vecfun, f_vec=pert)
    ctx.check(g.christoffels is vecfun and g.f_vec is pert and g.name == "Base Metric", case["name"] + ":attrs", "attributes not kept")
    ctx.check(g.a.si.value == 0 and g.Q.si.value == 0, case["name"] + ":defaults", "spin or charge do not default to 0")
    # removing or adding a perturbation later takes effect
    x = np.array(PTS[1])
    g.perturbation = None
    ctx.check(np.allclose(g.metric_covariant(x), fw(x), rtol=1e-12), case["name"] + ":removed", "a removed perturbation is still there")
    g.perturbation = lambda x: 0.01 * np.eye(4)
    ctx.check(np.allclose(g.metric_covariant(x), fw(x) + 0.01 * np.eye(4), rtol=1e-12), case["name"] + ":added", "an added perturbation is missing")
    ctx.step(2)
