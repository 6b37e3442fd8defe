"""ODE steppers: every grid of right-hand side, direction, step, bound; every word of steps on two live solvers."""
import itertools
import warnings
import numpy as np
from scipy import integrate
from scipy.linalg import expm
from einsteinpy.integrators import RK45, RK4naive

PID = "C35"
LEVEL = "model_checking"
BOUND = {"quick": "14 right-hand sides (all monomials t^0..t^4, linear systems, nonlinear, stiff) x 6 short and 2 long time intervals in both directions x 5 small and 2 large step sizes x 4 containers, all steps to the bound and "
                  "3 beyond; all words of <= 6 steps on two live solvers of both kinds; every sequence of <= 3 moves of the bound", "thorough": "words of <= 9 steps, 11 step sizes"}
ASSUMPTIONS = ["The reference for the adaptive stepper is scipy's own Dormand-Prince solver with the documented tolerances, itself compared with the exact solution."]
A2 = np.array([[0.1, -1.3], [0.9, -0.2]])
A3 = np.array([[0., 1., .2], [-1., 0., .3], [.5, -.4, -.3]])


def mono(k):
    return (lambda t, y: (k + 1.0) * t ** k + 0 * y), (lambda t, t0, y0: y0 + t ** (k + 1) - t0 ** (k + 1))


def lin(A):
    return (lambda t, y: A @ y), (lambda t, t0, y0: expm(A * (t - t0)) @ y0)


# name -> (right-hand side, exact solution, initial values, degree of t-polynomial or None, matrix or None)
RHS = {"t%d" % k: mono(k) + ([1.5, np.array([1., -2.])], k, None) for k in range(5)}
for _l in (1.0, -0.7, 2.0):
    RHS["exp%g" % _l] = ((lambda t, y, l=_l: l * y), (lambda t, t0, y0, l=_l: y0 * np.exp(l * (t - t0))), [2.0, np.array([3., 2., 1.]), -1.0], None, _l)
RHS["rot"] = lin(A2) + ([np.array([1., 2.])], None, A2)
RHS["spin"] = lin(A3) + ([np.array([1., 2., -1.])], None, A3)
RHS["ty"] = ((lambda t, y: -t * y), (lambda t, t0, y0: y0 * np.exp((t0 ** 2 - t ** 2) / 2)), [1.0, np.array([.5, 2.])], None, None)
RHS["logistic"] = ((lambda t, y: y * (1 - y)), (lambda t, t0, y0: 1 / (1 + (1 / y0 - 1) * np.exp(t0 - t))), [0.3, np.array([.2, .7])], None, None)
RHS["quotient"] = ((lambda t, y: y / (t + 10)), (lambda t, t0, y0: y0 * (t + 10) / (t0 + 10)), [2.0], None, None)
RHS["sine"] = ((lambda t, y: np.cos(3 * t) + 0 * y), (lambda t, t0, y0: y0 + (np.sin(3 * t) - np.sin(3 * t0)) / 3), [0.1, np.array([1., 0.])], None, None)
SPAN = [(0., 1.), (0., -1.), (1.5, 3.2), (3.2, 1.5), (-2., 2.), (.5, -1.1)]
FAR = [(0., 40.), (60., 10.)]
HF = [1.5, 5.0]
H = [0.1, 0.3, 0.07, 0.5, 1.0 / 3]
HT = H + [0.01, 0.02, 0.9, 0.25, 0.125, 0.6]


def cases(tier):
    out = [dict(name="rk4:%s" % n, rk4=n) for n in RHS] + [dict(name="rk45:%s" % n, rk45=n) for n in RHS]
    return out + [dict(name="words:%d" % i, words=i) for i in range(4)] + [dict(name="edges", edges=1)]


def grid(name, hs):
    """time interval x step; long intervals with large steps where the solution stays finite"""
    yield from itertools.product(SPAN, hs)
    if name not in ("ty", "logistic"):
        yield from itertools.product(FAR, HF)


def quiet(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f()
    return [x for x in w if issubclass(x.category, RuntimeWarning)]


def run_case(case, ctx):
    hs = HT if ctx.tier == "thorough" else H
    if "rk4" in case:
        f, ex, y0s, deg, lam = RHS[case["rk4"]]
        for ((t0, tb), h), y0 in itertools.product(grid(case["rk4"], hs), y0s):
            key = "%s:%g:%g:%g:%s" % (case["name"], t0, tb, h, np.shape(y0))
            y00 = np.copy(y0) if isinstance(y0, np.ndarray) else y0
            s = RK4naive(f, t0, y0, tb, h)
            sg = 1 if tb >= t0 else -1
            ctx.state(key)
            ctx.check(s.t == t0 and np.array_equal(s.y, y0), key + ":start", "%s: does not start at the initial point" % key)
            n = 0
            while sg * (tb - s.t) > 1e-12 and n < 10000:
                pt, py = s.t, s.y
                w = quiet(s.step)
                ctx.step()
                n += 1
                hh = sg * min(h, abs(tb - pt))
                ctx.state(key, n)
                ctx.check(not w, key + ":nowarn", lambda: "%s: warned inside the interval at t=%r" % (key, pt))
                if not ctx.check(abs(s.t - (pt + hh)) <= 1e-12 and sg * (s.t - tb) <= 1e-12, key + ":t", lambda: "%s: from t=%r to %r, expected %r (bound %r)" % (key, pt, s.t, pt + hh, tb)):
                    break
                loc = ex(s.t, pt, py)
                err = np.max(np.abs(np.asarray(s.y - loc)))
                sc = 1 + np.max(np.abs(py))
                if deg is not None and deg <= 3:
                    ctx.check(err <= 1e-11 * (sc + np.max(np.abs(loc))), key + ":exact", lambda: "%s: step of %g from t=%r gives %s, exact %s" % (key, hh, pt, s.y, loc))
                elif lam is not None:
                    z = np.asarray(lam) * hh
                    if np.ndim(z) == 2:
                        R = np.eye(len(z)) + z + z @ z / 2 + z @ z @ z / 6 + z @ z @ z @ z / 24
                        want = R @ py
                    else:
                        want = (1 + z + z ** 2 / 2 + z ** 3 / 6 + z ** 4 / 24) * py
                    ctx.check(np.allclose(s.y, want, rtol=1e-11, atol=1e-11), key + ":linear", lambda: "%s: step of %g from %s gives %s, fourth-order step is %s" % (key, hh, py, s.y, want))
                else:
                    # every fourth-order method: the local error is of fifth order
                    ctx.check(err <= 3.5 * sc * abs(hh) ** 5 + 1e-13, key + ":order", lambda: "%s: local error %.3g for a step of %g" % (key, err, hh))
                ctx.check(np.shape(s.y) == np.shape(y00) and not (isinstance(y00, float) and isinstance(s.y, np.ndarray)), key + ":type", lambda: "%s: y changed shape to %s" % (key, np.shape(s.y)))
            ctx.check(abs(s.t - tb) <= 1e-9 and n <= int(np.ceil(abs(tb - t0) / h - 1e-9)) + 1, key + ":count", lambda: "%s: %d steps end at t=%r" % (key, n, s.t))
            ty = s.t, np.copy(s.y)
            late = 0
            for _ in range(4):
                w = quiet(s.step)
                late += len(w)
                ctx.step()
                ctx.check(len(w) <= 1 and abs(s.t - ty[0]) <= 1e-12 and np.allclose(s.y, ty[1], rtol=1e-10, atol=1e-10), key + ":stop",
                          lambda: "%s: a step at the bound moves to t=%r" % (key, s.t))
            ctx.check(late >= 3 and len(quiet(s.step)) == 1, key + ":warn", lambda: "%s: %d warnings for 4 steps at the bound" % (key, late))
            ctx.check(np.array_equal(y0, y00), key + ":input", "%s: the initial value was modified" % key)
            ctx.outcome(n, np.round(np.asarray(s.y), 6).tobytes())
            ctx.trace()
        # the order of the method: halving the step divides the local error by about 32
        if deg is None and lam is None:
            for t0, y0 in itertools.product((0.3, -.4), y0s):
                for sg in (1, -1):
                    e = []
                    for h in (0.08, 0.04, 0.02):
                        s = RK4naive(f, t0, y0, t0 + sg, h)
                        s.step()
                        ctx.step()
                        e.append(np.max(np.abs(s.y - ex(s.t, t0, y0))))
                    ctx.check(e[2] < 1e-14 or e[0] / e[2] > 330, case["name"] + ":rate", lambda: "%s: local errors %s for steps .08 .04 .02 from %g" % (case["name"], e, t0))
        return
    if "rk45" in case:
        f, ex, y0s, deg, lam = RHS[case["rk45"]]
        for ((t0, tb), h), y0 in itertools.product(grid(case["rk45"], hs), y0s):
            if 0.8 * h > abs(tb - t0):
                continue
            for tol in ({}, dict(rtol=1e-4), dict(atol=1e-7), dict(rtol=1e-6, atol=1e-9)):
                key = "%s:%g:%g:%g:%s:%s" % (case["name"], t0, tb, h, np.shape(y0), sorted(tol))
                y00 = np.copy(y0)
                s = RK45(f, t0, y0, tb, h, **tol)
                rt = tol.get("rtol", 0.2 * h)
                at = tol.get("atol", rt / 0.8e3)
                r = integrate.RK45(f, t0, np.atleast_1d(y0), tb, first_step=0.8 * h, max_step=8 * h, rtol=rt, atol=at, vectorized=not isinstance(y0, float))
                sg = 1 if tb > t0 else -1
                n = 0
                bad = False
                while r.status == "running" and n < 5000:
                    pt = s.t
                    w = quiet(s.step)
                    r.step()
                    ctx.step()
                    n += 1
                    ctx.state(key, n)
                    ctx.check(not w, key + ":nowarn", "%s: warned at t=%r" % (key, pt))
                    ok = abs(s.t - r.t) <= 1e-9 and np.allclose(s.y, r.y, rtol=1e-9, atol=1e-12) and sg * (s.t - tb) <= 0 and sg * (s.t - pt) > 0 and abs(s.t - pt) <= 8 * h * (1 + 1e-9)
                    if not ctx.check(ok, key + ":step", lambda: "%s: step %d from t=%r to t=%r y=%s, expected t=%r y=%s" % (key, n, pt, s.t, s.y, r.t, r.y)):
                        bad = True
                        break
                if bad:
                    continue
                e = ex(tb, t0, y00)
                sc = max(1.0, np.max(np.abs(e)), np.max(np.abs(y00))) * max(1, np.exp(2 * abs(tb - t0)))
                ctx.check(s.t == tb and np.max(np.abs(s.y - e)) <= 10 * n * sc * (rt + at), key + ":end", lambda: "%s: ends at t=%r y=%s, exact %s" % (key, s.t, s.y, e))
                for _ in range(3):
                    y = s.y.copy()
                    w = quiet(s.step)
                    ctx.step()
                    ctx.check(len(w) == 1 and s.t == tb and np.array_equal(s.y, y), key + ":stop", lambda: "%s: after the bound: %d warnings, t=%r" % (key, len(w), s.t))
                ctx.check(np.array_equal(y0, y00), key + ":input", "%s: the initial value was modified" % key)
                ctx.outcome(n, np.round(s.y, 6).tobytes())
                ctx.trace()
        return
    if "words" in case:
        # two live solvers stepped in every order: neither sees the other
        spec = [(RK4naive, "ty", 0., .9, .2, 0), (RK4naive, "rot", 1., .1, .3, 0), (RK45, "logistic", 0., 2., .3, 1), (RK45, "rot", 1., 0., .2, 0)]
        a = case["words"]
        L = 9 if ctx.tier == "thorough" else 6
        for b in range(4):
            alone = []
            for i in (a, b):
                c, n, t0, tb, h, k = spec[i]
                s = c(RHS[n][0], t0, RHS[n][2][k], tb, h)
                hist = [(s.t, np.copy(s.y))]
                for _ in range(L):
                    quiet(s.step)
                    hist.append((s.t, np.copy(s.y)))
                alone.append(hist)
            for word in itertools.product((0, 1), repeat=L):
                ss = []
                for i in (a, b):
                    c, n, t0, tb, h, k = spec[i]
                    ss.append(c(RHS[n][0], t0, RHS[n][2][k], tb, h))
                cnt = [0, 0]
                for w in word:
                    quiet(ss[w].step)
                    cnt[w] += 1
                    ctx.step()
                    ctx.state(a, b, tuple(cnt))
                    for j in (0, 1):
                        t, y = alone[j][cnt[j]]
                        ctx.check(ss[j].t == t and np.array_equal(ss[j].y, y), "words:%d:%d" % (a, b), lambda: "steps %s: solver %d is at t=%r, alone at t=%r" % (word, j, ss[j].t, t))
                ctx.trace()
        return
    # bound equal to the start, a single partial step, integer times, float subclasses
    for h in hs:
        s = RK4naive(lambda t, y: y, 2.0, 1.0, 2.0, h)
        w = quiet(s.step)
        ctx.step()
        ctx.check(len(w) == 1 and s.t == 2.0 and s.y == 1.0, "edges:empty:%g" % h, "bound equal to the start: t=%r, %d warnings" % (s.t, len(w)))
        for sg in (1, -1):
            for frac in (0.05, 0.5, 0.999, 1.0, 1.001, 1.5):
                s = RK4naive(lambda t, y: 3 * t ** 2 + 0 * y, 1.0, np.array([1.0]), 1.0 + sg * frac * h, h)
                s.step()
                ctx.step()
                t = 1 + sg * min(frac, 1) * h
                ctx.state("edges", h, sg, frac)
                ctx.check(abs(s.t - t) < 1e-12 and abs(s.y[0] - t ** 3) < 1e-12, "edges:partial:%g:%g:%d" % (h, frac, sg), lambda: "interval of %g steps: t=%r y=%s, expected t=%r" % (frac, s.t, s.y, t))
                ctx.trace()
    for y0 in (1.0, np.float64(1.0), np.array([1.0]), [1.0]):
        for tb in (1.0, -1.0):
            s = RK45(lambda t, y: -2 * y, 0.0, y0, tb, 0.1)
            while s.status == "running":
                s.step()
                ctx.step()
            ctx.state("edges45", str(type(y0)), tb)
            ctx.check(abs(s.y[0] - np.exp(-2 * tb)) < 0.1 * np.exp(-2 * tb), "edges:type:%s:%g" % (type(y0).__name__, tb), lambda: "initial value %r: y(%g) = %s" % (y0, tb, s.y))
            ctx.trace()
