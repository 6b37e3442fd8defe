"""4-velocity: normalised to c^2 with the metric at hand, whatever was computed with the same object before."""
import itertools
import numpy as np
import astropy.units as u
from mc import knref
from mc.num import *

PID = "C26"
LEVEL = "model_checking"
BOUND = {"quick": "3 metrics x 4 spins/charges x 5 radii x 5 angles x 27 velocity patterns; user metrics with every off-diagonal slot filled x 3 systems; all ordered pairs and "
                  "triples of metrics on one coordinate object; Lorentz factors of 729 velocities", "thorough": "two masses, 8 radii"}
ASSUMPTIONS = ["g(u,u)=c^2 to 1e-8 of the sum of the absolute values of its terms"]


def warm():
    sph(r=1e6).velocity(make("sch", 1e30, 0, 0))


def cases(tier):
    fam = [f for f in family() if f[0].split(":")[1] in (("sun",) if tier == "quick" else ("sun", "smbh"))]
    return [dict(name=n, kind=k, M=M, a=a, Q=Q) for n, k, M, a, Q in fam] + [dict(name="history", history=1), dict(name="gamma", gamma=1)] + \
        [dict(name="user:%s" % s, user=s) for s in ("Cartesian", "Spherical", "BoyerLindquist")]


def norm_ok(ctx, key, gm, v, c, want_positive):
    v = np.array([float(x) for x in v])
    if not np.all(np.isfinite(v)):
        return ctx.check(False, key, lambda: "%s: 4-velocity %s" % (key, v))
    n = v @ gm @ v
    sc = abs(v) @ abs(gm) @ abs(v)
    ctx.check(abs(n - c ** 2) <= 1e-8 * (sc + c ** 2), key, lambda: "%s: g(u,u) = %r, c^2 = %r, u = %s" % (key, n, c ** 2, v))
    if want_positive:
        ctx.check(v[0] > 0, key + ":future", key + ": not future directed")


def run_case(case, ctx):
    c = float(knref.C)
    if "history" in case:
        return history(ctx, c)
    if "gamma" in case:
        return gammas(ctx, c)
    if "user" in case:
        return user(ctx, case["user"], c)
    kind, M, a, Q = (case[k] for k in ("kind", "M", "a", "Q"))
    rs = float(2 * knref.Ref(M, a, Q, 1, 1).m)
    mkc = sph if kind == "sch" else bl
    g = None
    R = (1.1, 1.7, 4.0, 60.0, 1e6) + ((1.3, 10., 1e4) if ctx.tier == "thorough" else ())
    for x, th in itertools.product(R, (0.01, 0.8, np.pi / 2, 2.0, 3.0)):
        r = x * rs
        gm = knref.farr(knref.Ref(M, a, Q, r, th).g)
        for s in itertools.product((0, 1, -1), repeat=3):
            for f in (0.01, 0.6) if ctx.tier == "thorough" or x == 4.0 else (0.6,):
                vv = (s[0] * f * c, s[1] * f * c / r, s[2] * f * c / r / np.sin(th))
                if a > 0.8 and x < 1.5:   # inside the ergosphere only the norm is asked for, and only where the root is real
                    B = 2 * gm[0, 3] * vv[2]
                    Cc = gm[1, 1] * vv[0] ** 2 + gm[2, 2] * vv[1] ** 2 + gm[3, 3] * vv[2] ** 2 - c ** 2
                    if B * B - 4 * gm[0, 0] * Cc < 1e-3 * B * B + 1e-3 * abs(gm[0, 0] * Cc):
                        continue
                d = mkc(3.0, r, th, 0.5, *vv)
                g = g or make(kind, M, a, Q, coords=d)
                key = "%s:r%g:th%.3g:v%s:%g" % (case["name"], x, th, s, f)
                ctx.state(key)
                for rep in (0, 1):
                    v = d.velocity(g)
                    ctx.step()
                    ctx.check(len(v) == 4 and all(abs(float(p) - q) <= 1e-12 * abs(q) for p, q in zip(v[1:], vv)), key + ":spatial", key + ": spatial components changed")
                    norm_ok(ctx, key, gm, v, c, gm[0, 0] > 0)
                ctx.outcome(round(float(v[0]), 8))
                ctx.check(abs(d.v_t.value - v[0]) <= 1e-14 * abs(v[0]), key + ":v_t", key + ": v_t differs from velocity()[0]")
                ctx.trace()


def history(ctx, c):
    """the same coordinates asked for their velocity in several metrics, in every order"""
    d0 = dict(r=9e4, th=1.2, ph=0.3, vr=2e7, vt=90., vp=110.)
    ms = [("kerr", 1e31, 0.2, 0.), ("kerr", 2e31, 0.9, 0.), ("kn", 1e31, 0.5, charge(1e31, 0.5)), ("kn", 2e31, 0.9, 0.), ("kerr", 1e28, 0.0, 0.)]
    fresh = []
    for m in ms:
        d = bl(**d0)
        fresh.append(d.velocity(make(*m, coords=d)))
    for L in (1, 2, 3, 4):
        for seq in itertools.product(range(len(ms)), repeat=L):
            d = bl(**d0)
            gs = {}
            for i, k in enumerate(seq):
                if k not in gs:
                    gs[k] = make(*ms[k], coords=d)
                v = d.velocity(gs[k])
                ctx.step()
                ctx.state(seq[:i + 1])
                ctx.check(np.allclose(v, fresh[k], rtol=1e-13), "history:%d" % k, lambda: "velocity in metric %d after %s: %s, on a fresh object %s" % (k, seq[:i], v, fresh[k]))
                ctx.check(abs(d.v_t.value - fresh[k][0]) <= 1e-13 * fresh[k][0], "history:v_t", "v_t is not the one of the last metric")
            ctx.trace()


def gammas(ctx, c):
    """Lorentz factors, and the 4-velocity of flat space they belong to"""
    from einsteinpy.coordinates.utils import lorentz_factor
    F = (0.0, 0.3, -0.45, 1e-3, -0.02, 0.08, -1e-6, 0.57, -0.577)
    d0 = cart(1., 2e3, 3e3, 4e3, 0., 0., 0.)
    for s in itertools.product(F, repeat=3):
        g = 1 / np.sqrt(1 - sum(x * x for x in s))
        for wrap in (float, np.float64):
            v = [wrap(x * c) for x in s]
            got = lorentz_factor(*v)
            ctx.step()
            key = "gamma:%s" % (s,)
            ctx.state(key)
            ctx.check(abs(float(got) - g) <= 1e-10 * g ** 3, key, lambda: "lorentz_factor(%s) = %r, expected %r" % (v, got, g))
        m = BaseMetric(coords=d0, M=1 * u.kg, metric_cov=lambda x: np.diag([1., -1., -1., -1.]))
        w = cart(1., 2e3, 3e3, 4e3, *[float(g * x * c) for x in s]).velocity(m)
        ctx.step()
        ctx.check(abs(float(w[0]) - float(got) * c) <= 1e-9 * g ** 3 * c, key + ":flat", lambda: "%s: u^t = %r, gamma c = %r" % (key, w[0], got * c))
        ctx.outcome(round(float(g), 8))
        ctx.trace()


def user(ctx, system, c):
    """every off-diagonal slot of the metric enters the normalisation"""
    mkc = {"Cartesian": lambda v: cart(1., 2e3, 3e3, 4e3, *v), "Spherical": lambda v: sph(1., 2e3, 1.1, 0.4, *v), "BoyerLindquist": lambda v: bl(1., 2e3, 1.1, 0.4, *v)}[system]
    size = np.array([c, 1., 1., 1.]) if system == "Cartesian" else np.array([c, 1., 2e3, 2e3])
    for slots in itertools.chain([()], [(p,) for p in itertools.combinations(range(4), 2)], itertools.combinations(itertools.combinations(range(4), 2), 2), [tuple(itertools.combinations(range(4), 2))]):
        m = np.diag([1., -1., -1., -1.])
        for n, (i, j) in enumerate(slots):
            m[i, j] = m[j, i] = 0.1 + 0.03 * n
        gm = m * np.outer(size, size)
        for s in itertools.product((0, 1, -1), repeat=3):
            vv = [0.3 * c * k / q for k, q in zip(s, size[1:])]
            d = mkc(vv)
            g = BaseMetric(coords=d, M=1 * u.kg, metric_cov=lambda x: gm)
            v = d.velocity(g)
            ctx.step()
            key = "user:%s:%s:%s" % (system, slots, s)
            ctx.state(key)
            ctx.outcome(round(float(v[0]), 9))
            norm_ok(ctx, key, gm, v, c, True)
            p = BaseMetric(coords=d, M=1 * u.kg, metric_cov=lambda x: gm * 1.0, perturbation=lambda x: 0.05 * np.diag([c ** 2, -1, 0, 0]))
            v = d.velocity(p)
            ctx.step()
            norm_ok(ctx, key + ":perturbed", gm + 0.05 * np.diag([c ** 2, -1, 0, 0]), v, c, True)
            ctx.trace()
