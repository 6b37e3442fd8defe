"""The metric matrices of Schwarzschild, Kerr and Kerr-Newman, and their inverses, on the whole parameter/point alphabet."""
import itertools
import mpmath as mp
import numpy as np
import astropy.units as u
from mc import knref
from mc.num import *

PID = "C16"
LEVEL = "model_checking"
BOUND = {"quick": "4 masses x 4 spins (0..1) x 4 charges (0,+,-) x 13 radii x 7 polar angles (and 9 points with angles outside 0..pi) x 2 (t,phi) pairs x 3 container types of floats and 3 of integers, each queried "
                  "twice on one shared object and once on a fresh one; 5 massless holes x 36 points against flat space", "thorough": "20 radii, 13 angles"}
ASSUMPTIONS = ["entries agree with the line element (evaluated with 40 digits) to 1e-8 in units of c^2, 1, r^2 and c*r, relaxed by the conditioning of r - r_horizon"]


def cases(tier):
    return [dict(name=n, kind=k, M=M, a=a, Q=Q) for n, k, M, a, Q in family()] + [dict(name="helpers", helpers=1), dict(name="spin", spin=1), dict(name="massless", massless=1)]


def grid(tier):
    R = INNER + RADII + (300.0, 1e6) + ((0.1, 0.65, 1.2, 2.0, 5.0, 100.0, 3e7) if tier == "thorough" else ())
    T = THETAS + ((0.01, 0.9, 1.5, 2.0, 3.0, np.pi / 3) if tier == "thorough" else ())
    return list(itertools.product(R, T)) + BEYOND


def near_horizon(ref):
    """r^2 - 2mr + al^2 + rq^2 against the size of its terms: where they cancel nothing can be compared"""
    L2 = ref.r ** 2 + 2 * ref.m * ref.r + ref.al ** 2 + ref.rq ** 2
    return float(L2 / max(abs(ref.r ** 2 - 2 * ref.m * ref.r + ref.al ** 2 + ref.rq ** 2), L2 * mp.mpf("1e-30")))


def run_case(case, ctx):
    if "helpers" in case:
        return helpers(ctx)
    if "spin" in case:
        return spin(ctx)
    if "massless" in case:
        return massless(ctx)
    kind, M, a, Q = (case[k] for k in ("kind", "M", "a", "Q"))
    g = make(kind, M, a, Q)
    rs = float(2 * knref.Ref(M, a, Q, 1, 1).m)
    c = float(knref.C)
    ctx.check(abs(g.sch_rad / rs - 1) < 1e-9, case["name"] + ":rs", "Schwarzschild radius %r, expected %r" % (g.sch_rad, rs))
    own = [np.array([0., x * rs, th, 0.4]) for x, th in ((1.6, 0.7), (3.0, 2.0), (1.6, np.pi - 0.7))]
    owned(ctx, case["name"], [(n, lambda n=n, p=p: getattr(g, n)(p)) for p in own for n in ("metric_covariant", "metric_contravariant")])
    first = {}
    buf = np.zeros(4)
    for rep in (0, 1):
        for i, (x, th) in enumerate(grid(ctx.tier)):
            r = x * rs
            ref = knref.Ref(M, a, Q, r, th)
            near = near_horizon(ref)
            if near > 1e3:
                continue
            sc = 1 / np.outer(units4(r, c), units4(r, c)) * float(r) ** 2   # sizes: c^2, 1.., r^2
            s2 = abs(np.sin(th))
            w = np.ones((4, 4))
            w[3, :] *= max(s2, 1e-12)
            w[:, 3] *= max(s2, 1e-12)
            want = knref.farr(ref.g)
            scale = sc * w
            scale = np.maximum(scale, np.abs(want))
            scale[1, 1] = abs(want[1, 1]) * near
            if x >= 10:     # far away the deviations from flat space are small; they still have to be there
                scale = np.maximum(scale * 1e-4, np.abs(want) * 1e-4)
            scale[0, 3] = scale[3, 0] = max(abs(want[0, 3]), 1e-6 * c * float(ref.al) * max(s2, 1e-12) ** 2, 1e-300) * (1 if x >= 1 else near)
            for tp in ((0.0, 0.0), (7.5e3, 2.1), (-3.0, -1.2)) if rep else ((0.0, 0.0), (7.5e3, 2.1)):
                xs = (tp[0], r, th, tp[1])
                obj = g if tp[0] == 0.0 or rep else make(kind, M, a, Q)
                buf[:] = xs          # one array, overwritten between calls
                ri = max(int(r), 1)
                ints = (0, ri, 2, 1)
                for form in (buf, list(xs), xs) if tp[0] == 0 else (np.array(xs),):
                    m = obj.metric_covariant(form)
                    ctx.step()
                    key = "%s:r%g:th%.4g" % (case["name"], x, th)
                    ctx.state(key, tp[0], type(form).__name__, rep)
                    e = rel(m, want, scale)
                    ctx.check(e < 1e-8, key, lambda: "g_covariant at %s differs from the line element by %.3g:\n%s\nexpected\n%s" % (key, e, m, want))
                if tp[0] > 0 and rep and x >= 1.5:      # whole numbers are numbers
                    wr = knref.Ref(M, a, Q, ri, 2)
                    wint, n2 = knref.farr(wr.g), near_horizon(wr)
                    for form in (np.array(ints), list(ints), tuple(ints)):
                        mint = obj.metric_covariant(form)
                        ctx.step()
                        ctx.check(rel(mint, wint, np.maximum(sc, np.abs(wint)) * n2) < 1e-8, key + ":int",
                                  lambda: "%s: wrong for the integer position %r:\n%s\nexpected\n%s" % (key, form, mint, wint))
                ctx.check(rel(obj.metric_cov(np.array(xs)), m, scale) < 1e-9, key + ":alias", key + ": metric_cov and metric_covariant differ")
                ctx.outcome(m.tobytes())
                ctx.check(rel(m, first.setdefault(i, m.copy()), scale) < 1e-9, key + ":history", key + ": result depends on t, phi or on earlier calls")
                m[...] = np.nan         # what was returned belongs to the caller
                mi = obj.metric_contravariant(buf)
                ctx.step()
                wi = knref.farr(ref.ginv)
                si = np.sqrt(np.outer(np.abs(np.diag(wi)), np.abs(np.diag(wi)))) + 1e-300
                if x < 1.01:
                    si = np.maximum(si, np.outer(units4(r, c), units4(r, c)) / float(r) ** 2 * near)
                e = rel(mi, wi, si * near)
                ctx.check(e < 2e-8, key + ":inverse", lambda: "g_contravariant at %s differs by %.3g:\n%s\nexpected\n%s" % (key, e, mi, wi))
                # a point closer than anything one would round away is still another point
                buf[2] = th2 = th + 7e-7
                wi2 = knref.farr(knref.Ref(M, a, Q, r, th2).ginv)
                mi2, m2 = obj.metric_contravariant(buf), obj.metric_covariant(buf)
                w2 = knref.farr(knref.Ref(M, a, Q, r, th2).g)
                ctx.step(2)
                ctx.check(rel(mi2, wi2, si * near) < 2e-8 and rel(m2, w2, scale) < 1e-8, key + ":next", key + ": wrong 7e-7 rad further on")
                mi[...] = np.nan
                mi2[...] = np.nan
                ctx.trace()
    # limits: a Kerr hole without spin is Schwarzschild, a Kerr-Newman hole without charge is Kerr, the sign of the charge does not curve
    others = []
    if kind == "kerr" and a == 0:
        others.append(make("sch", M, 0, 0))
    if kind == "kn" and Q == 0:
        others.append(make("kerr", M, a, 0))
    if kind == "kn":
        others.append(make("kn", M, a, -Q))
    for o in others:
        for x, th in grid(ctx.tier):
            xs = np.array([0., x * rs, th, 0.])
            p, q = g.metric_covariant(xs), o.metric_covariant(xs)
            sc = np.outer(1 / units4(x * rs, c), 1 / units4(x * rs, c)) * (x * rs) ** 2
            sc[3, :] *= abs(np.sin(th))
            sc[:, 3] *= abs(np.sin(th))
            near = near_horizon(knref.Ref(M, a, Q, x * rs, th))
            if near > 1e3:
                continue
            sc = np.maximum(sc, np.abs(q))
            sc[1, 1] = abs(q[1, 1]) * near
            ctx.step(2)
            ctx.check(rel(p, q, sc) < 1e-8, case["name"] + ":limit:" + o.name, "%s does not reduce to %s at r=%g r_s, th=%g" % (case["name"], o.name, x, th))


def helpers(ctx):
    """sigma, delta, rho, alpha, schwarzschild_radius: values, plain floats or quantities in any units, called in any order"""
    seq = []
    for mn, M in MASSES.items():
        for a in (0.0, 0.3, 1.0):
            for x, th, f in itertools.product((1.2, 10.0, 1e5), (0.0, 0.5, np.pi / 2, 3.0), (0.0, 0.3, -0.3)):
                seq.append((M, a, charge(M, f), x, th))
    for order in (1, -1):
        for M, a, Q, x, th in seq[::order]:
            ref = knref.Ref(M, a, Q, 1, th)
            r = float(2 * ref.m) * x
            m, al, rq = float(ref.m), float(ref.al), float(ref.rq)
            S = r * r + al * al * np.cos(th) ** 2
            D = r * r - 2 * m * r + al * al + rq * rq
            D0 = D - rq * rq
            key = "helpers:M%g:a%g:Q%g:r%g:th%g" % (M, a, Q, x, th)
            ctx.state(key, order)
            for form, (R, T, MM, A, QQ) in {"float": (r, th, M, a, Q),
                                            "quantity": (r * u.m, th * u.rad, M * u.kg, a * u.one, Q * u.C),
                                            "other": ((r / 1e3) * u.km, np.degrees(th) * u.deg, M * 1e3 * u.g, a * u.one, Q * 1e3 * u.mC)}.items():
                got = (BaseMetric.sigma(R, T, MM, A), BaseMetric.rho(R, T, MM, A), BaseMetric.delta(R, MM, A, QQ), BaseMetric.delta(R, MM, A),
                       BaseMetric.alpha(MM, A), BaseMetric.schwarzschild_radius(MM))
                want = (S, np.sqrt(S), D, D0, al, 2 * m)
                ctx.step(6)
                for nm, p, q, s in zip(("sigma", "rho", "delta", "delta-uncharged", "alpha", "schwarzschild_radius"), got, want, (S, r, r * r, r * r, m, m)):
                    ctx.check(abs(float(p) - q) <= 1e-9 * s, "helpers:%s:%s" % (nm, form), lambda: "%s %s (%s): %r, expected %r" % (key, nm, form, p, q))
                    ctx.outcome(nm, float(p))
            ctx.trace()


def massless(ctx):
    """without mass and charge every metric is flat space-time, however it is asked"""
    c = float(knref.C)
    for kind, a in (("sch", 0.0), ("kerr", 0.0), ("kerr", 0.7), ("kn", 0.0), ("kn", 1.0)):
        g = make(kind, 0.0, a, 0.0)
        for r, th in itertools.product((1e-3, 1.0, 7e3, 4e11), THETAS + (-0.8, 4.0)):
            x = np.array([2.0, r, th, -1.0])
            s = np.sin(th)
            want = np.diag([-c ** 2, 1.0, r ** 2, (r * s) ** 2])        # up to the overall sign convention, fixed by the first entry
            got, up = g.metric_covariant(x), g.metric_contravariant(x)
            sg = np.sign(want[0, 0] * got[0, 0])
            ch = g.christoffels(x)
            U = units4(r, c)
            ref = np.zeros((4, 4, 4))
            ref[1, 2, 2], ref[1, 3, 3] = -r, -r * s * s
            ref[2, 1, 2] = ref[2, 2, 1] = ref[3, 1, 3] = ref[3, 3, 1] = 1 / r
            ref[2, 3, 3], ref[3, 2, 3], ref[3, 3, 2] = -s * np.cos(th), np.cos(th) / s, np.cos(th) / s
            key = "massless:%s:a%g:r%g:th%g" % (kind, a, r, th)
            nat = U[:, None, None] / (U[None, :, None] * U[None, None, :])
            v = np.array([1.3, 0.2 * c, -0.1 * c / r, 0.3 * c / r])
            f = g.f_vec(0.0, np.concatenate((x, v)))
            ctx.step(4)
            ctx.state(key)
            ctx.outcome(got.tobytes())
            ctx.check(np.allclose(got, sg * want, rtol=1e-12, atol=0), key, lambda: "%s: metric %s, flat space has %s" % (key, got, want))
            ctx.check(np.allclose(up @ got, np.eye(4), rtol=0, atol=1e-9), key + ":inverse", lambda: "%s: inverse %s" % (key, up))
            ctx.check(rel(ch, ref, nat + abs(ref)) < 1e-9, key + ":christoffels", lambda: "%s: symbols %s" % (key, ch))
            acc = -np.einsum("ikl,k,l->i", ref, v, v)
            sc = np.einsum("ikl,k,l->i", abs(ref), abs(v), abs(v)) + 1e-9 * U * (c / r) ** 2
            ctx.check(np.array_equal(f[:4], v) and np.all(abs(f[4:] - acc) <= 1e-9 * sc), key + ":straight", lambda: "%s: a free particle is accelerated: %s, expected %s" % (key, f[4:], acc))
            ctx.trace()


def spin(ctx):
    """a spin outside [0, 1] is refused wherever it enters, one inside is accepted"""
    for a in (-1e-9, -0.5, 1.0000001, 1.5, 2, -3, 1e9):
        for A in (a, a * u.one, np.float64(a)):
            for M in (1e30, 1e30 * u.kg):
                ctx.raises(ValueError, lambda: BaseMetric.alpha(M, A), "alpha:%g:%s" % (a, type(A).__name__), "alpha with spin %g" % a)
                ctx.raises(ValueError, lambda: BaseMetric.sigma(1e4, 1.0, M, A), "sigma:%g" % a, "sigma with spin %g" % a)
                ctx.raises(ValueError, lambda: BaseMetric.rho(1e4, 1.0, M, A), "rho:%g" % a, "rho with spin %g" % a)
                ctx.raises(ValueError, lambda: BaseMetric.delta(1e4, M, A), "delta:%g" % a, "delta with spin %g" % a)
                ctx.state("bad", a, type(A).__name__)
        for kind in ("kerr", "kn"):
            g = None
            def use():
                m = make(kind, 1e30, a, 1.0)
                return m.metric_covariant(np.array([0., 1e5, 1., 0.]))
            ctx.raises(ValueError, use, "%s:%g" % (kind, a), "%s metric with spin %g" % (kind, a))
            ctx.raises(ValueError, lambda: make(kind, 1e30, a, 1.0).singularities(), "%s:sing:%g" % (kind, a), "%s horizons with spin %g" % (kind, a))
    for a in (0, 0.0, 1, 1.0, 0.5, 1e-12, 1 - 1e-12):
        for A in (a, a * u.one):
            v = BaseMetric.alpha(1e30, A)
            ctx.step()
            ctx.state("good", a, type(A).__name__)
            want = float(knref.Ref(1e30, a, 0, 1, 1).al)
            ctx.check(abs(v - want) <= 1e-9 * abs(want), "alpha:ok:%g" % a, "alpha(1e30, %g) = %r, expected %r" % (a, v, want))
    # dimensionless spin given in percent or as a ratio of units
    v = BaseMetric.alpha(1e30, 50 * u.percent)
    ctx.check(abs(v / float(knref.Ref(1e30, 0.5, 0, 1, 1).al) - 1) < 1e-9, "alpha:percent", "spin of 50 percent is not 0.5")
