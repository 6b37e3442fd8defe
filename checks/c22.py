"""A metric answers only in its own coordinate system; elsewhere every question is refused with CoordinateError."""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy.utils import CoordinateError
from mc import knref
from mc.num import *

PID = "C22"
LEVEL = "model_checking"
BOUND = {"quick": "3 metrics x 3 coordinate systems x every operation sequence of length <= 2 over 6 (Kerr-Newman: 10) operations; 3 coordinate systems x 3 metrics x 3 systems for velocity(), every sequence of 2 metrics shown to one velocity; 18 limiting and extreme holes x 12 coordinate objects (velocities, positions, foreign systems)",
         "thorough": "operation sequences of length <= 3, 3 metrics"}
ASSUMPTIONS = []

XS = np.array([0., 1e5, 1.1, 0.2])
V8 = np.concatenate((XS, [1.2, 1e5, 10., 20.]))
OPS = {
    "metric_covariant": lambda g: g.metric_covariant(XS), "metric_contravariant": lambda g: g.metric_contravariant(XS),
    "metric_cov": lambda g: g.metric_cov(XS), "christoffels": lambda g: g.christoffels(XS), "f_vec": lambda g: g.f_vec(0., V8),
    "singularities": lambda g: g.singularities(),
}
EM = {n: (lambda n: lambda g: getattr(g, n)(XS))(n) for n in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant")}
COORDS = {"Cartesian": cart, "Spherical": sph, "BoyerLindquist": bl}
NATIVE = {"sch": "Spherical", "kerr": "BoyerLindquist", "kn": "BoyerLindquist"}


def cases(tier):
    return [dict(name="%s:%s" % (k, s), kind=k, system=s) for k in NATIVE for s in COORDS] + [dict(name="velocity", velocity=1)] + [dict(name="history:" + s, history=s) for s in COORDS] + [dict(name="corner:" + k, corner=k) for k in NATIVE]


def val(v):
    if isinstance(v, dict):
        return {k: (float(x(0.3)) if callable(x) else float(x)) for k, x in v.items()}
    return np.asarray(v)


def eq(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-12 * abs(b[k]) for k in a)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=0)


def run_case(case, ctx):
    if "velocity" in case:
        return velocity(ctx)
    if "history" in case:
        return history(ctx, case["history"])
    if "corner" in case:
        return corner(ctx, case["corner"])
    kind, system = case["kind"], case["system"]
    ops = dict(OPS, **EM) if kind == "kn" else OPS
    ok = NATIVE[kind] == system
    expected = {}
    if ok:
        for n, f in ops.items():
            expected[n] = val(f(make(kind, 1e31, 0.4, charge(1e31, 0.2), coords=COORDS[system]())))
    depth = 2 if ctx.tier == "quick" else 3
    for L in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=L):
            g = make(kind, 1e31, 0.4, charge(1e31, 0.2), coords=COORDS[system]())
            for i, op in enumerate(seq):
                key = "%s:%s:%s" % (kind, system, ">".join(seq[:i + 1]))
                ctx.state(key)
                if ok:
                    r = val(ops[op](g))
                    ctx.step()
                    ctx.outcome(op, str(r)[:80])
                    ctx.check(eq(r, expected[op]), "%s:%s:%s" % (kind, system, op), lambda: "%s: %s gives another answer after %s" % (kind, op, seq[:i]))
                else:
                    ctx.raises(CoordinateError, lambda: ops[op](g), "%s:%s:%s" % (kind, system, op), "%s in %s coordinates: %s" % (kind, system, op))
            ctx.trace()


def history(ctx, s_coord):
    """one velocity, shown to every sequence of three metrics, good and bad ones"""
    mets = [(k, s) for k in NATIVE for s in COORDS]
    for seq in itertools.product(mets, repeat=2 if ctx.tier == "quick" else 3):
        d = COORDS[s_coord](r=1e6) if s_coord != "Cartesian" else cart(x=1e6, y=2e6, z=1e6)
        last = None
        for n, (kind, s_metric) in enumerate(seq):
            g = make(kind, 1e31, 0.4 if kind != "sch" else 0.0, charge(1e31, 0.2) if kind == "kn" else 0.0, coords=COORDS[s_metric]())
            key = "history:%s:%s" % (s_coord, ">".join("%s-%s" % q for q in seq[:n + 1]))
            ctx.state(key)
            if s_metric == s_coord and NATIVE[kind] == s_metric:
                v = d.velocity(g)
                ctx.step()
                last = v[0]
                fresh = COORDS[s_coord](r=1e6).velocity(g)
                ctx.check(np.allclose(v, fresh, rtol=1e-13), key, lambda: "%s: velocity %s, of a fresh object %s" % (key, v, fresh))
            else:
                def assign():
                    d.v_t = (g,)
                ctx.raises(CoordinateError, lambda: d.velocity(g), key + ":velocity", key)
                ctx.raises(CoordinateError, assign, key + ":v_t", key)
                now = None if d.v_t is None else d.v_t.value
                ctx.check(now == last, key + ":kept", lambda: "%s: a refused call changed v_t from %s to %s" % (key, last, now))
        ctx.trace()


def corner(ctx, kind):
    """limiting holes, tiny and huge ones, positions only, foreign and unnamed systems: still only the native coordinates"""
    import types
    from einsteinpy.coordinates import Cartesian, Spherical, BoyerLindquist
    plain = {"Cartesian": Cartesian(0 * u.s, 1e6 * u.m, 2e6 * u.m, 1e6 * u.m), "Spherical": Spherical(0 * u.s, 1e6 * u.m, 1.1 * u.rad, .2 * u.rad),
             "BoyerLindquist": BoyerLindquist(0 * u.s, 1e6 * u.m, 1.1 * u.rad, .2 * u.rad)}
    ops = dict(OPS, **EM) if kind == "kn" else OPS
    for M in (1.0, 1e31, 1e40):
        for a in (0.0, 1e-9, 0.4, 1.0):
            for q in (0.0, 0.2, -0.2):
                if (kind == "sch" and (a or q)) or (kind == "kerr" and q) or (a == 1.0 and q):
                    continue
                objs = [(s, "velocity", COORDS[s]()) for s in COORDS] + [(s, "position", plain[s]) for s in plain]
                objs += [(s, "foreign", types.SimpleNamespace(system=s)) for s in ("spherical", "Boyer-Lindquist", "", "SphericalPolar", "boyerlindquist", "Cylindrical")]
                for s, how, c in objs:
                    g = make(kind, M, a, charge(M, q), coords=c)
                    for op, f in ops.items():
                        key = "corner:%s:M%g:a%g:q%g:%s:%s:%s" % (kind, M, a, q, s, how, op)
                        ctx.state(key)
                        if s == NATIVE[kind]:
                            r = val(f(g))
                            ctx.step()
                            ctx.check(eq(r, val(f(make(kind, M, a, charge(M, q), coords=COORDS[s]())))) or op in ("metric_contravariant", "f_vec", "christoffels") and not np.all(np.isfinite(r)), key, lambda: "%s: answer depends on the kind of coordinate object" % key)
                            ctx.outcome(kind, op, M, a, q)
                        else:
                            ctx.raises(CoordinateError, lambda: f(g), key, key)
                    ctx.trace()


def velocity(ctx):
    for kind, s_metric, s_coord in itertools.product(NATIVE, COORDS, COORDS):
        d = COORDS[s_coord](r=1e6) if s_coord != "Cartesian" else cart(x=1e6, y=2e6, z=1e6)
        g = make(kind, 1e31, 0.4, charge(1e31, 0.2), coords=COORDS[s_metric]())
        key = "velocity:%s:%s:%s" % (kind, s_metric, s_coord)
        ctx.state(key)
        if s_metric == s_coord and NATIVE[kind] == s_metric:
            v = d.velocity(g)
            ctx.step()
            ctx.check(len(v) == 4 and np.isfinite(v[0]), key, "no velocity in matching coordinates")
            ctx.check(d.v_t is not None and abs(d.v_t.value - v[0]) <= 1e-15 * abs(v[0]), key + ":v_t", key + ": v_t differs from velocity()[0]")
        else:
            def assign():
                d.v_t = (g,)
            for nm, f in (("velocity", lambda: d.velocity(g)), ("v_t", assign)):
                ctx.raises(CoordinateError, f, key + ":" + nm, "%s: %s" % (key, nm))
                try:
                    f()
                except CoordinateError as e:
                    if s_metric != s_coord:
                        ctx.check(s_metric in str(e), key + ":message", lambda: "%s: message does not name the coordinates of the metric: %s" % (key, e))
                except Exception:
                    pass
            ctx.check(d.v_t is None, key + ":unset", key + ": a refused call set v_t")
        ctx.trace()
