"""The same physical quantity in any unit gives the same result; a quantity of the wrong dimension is refused."""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy.bodies import Body
from mc import knref
from mc.num import *

PID = "C21"
LEVEL = "model_checking"
BOUND = {"quick": "metrics: 4 mass units x 3 charge units x 2 spin units x 2 specific-charge units; static helpers: every combination of units or plain numbers for each argument at 72 parameter points; coordinates: 3 length x 3 angle x 3 time units; every kind of quantity astropy offers (plain, Constant, Angle, Longitude, Distance, integer, 0-d array) for each argument; every "
                  "argument of every constructor replaced by 6 wrong dimensions", "thorough": "the same (the space is finite and covered)"}
ASSUMPTIONS = ["results agree to 1e-9 relative"]

MU = (u.kg, u.g, u.M_sun, u.Mg)
QU = (u.C, u.mC, u.A * u.hour)
AU_ = (u.one, u.percent)
QM = (u.C / u.kg, u.mC / u.g)
LEN = (u.m, u.km, u.AU)
ANG = (u.rad, u.deg, u.arcmin)
TIM = (u.s, u.ms, u.day)


STATIC = {"sigma": "rtMa", "rho": "rtMa", "delta": "rMaQ", "alpha": "Ma", "schwarzschild_radius": "M"}
ARGU = {"r": LEN, "t": ANG, "M": MU, "a": AU_, "Q": QU + (u.kA * u.s, 1e12 * u.C)}


def static(name, ctx):
    """every combination of units, and of quantities with plain SI numbers"""
    args = STATIC[name]
    fn = getattr(BaseMetric, name)
    for M, a, f, x, th in itertools.product((1.9885e30, 6e24), (0.0, 0.8), (0.0, 0.5, -0.5), (1.2, 900.0), (0.3, np.pi / 2, 2.8)):
        si = {"r": x * 2 * 1.4766250385 * 1e3 * M / 1.9885e30, "t": th, "M": M, "a": a, "Q": charge(M, f)}
        ref = knref.Ref(M, a, si["Q"], si["r"], th)
        m, al, rq, r = (float(v) for v in (ref.m, ref.al, ref.rq, ref.r))
        S = r * r + al * al * np.cos(th) ** 2
        want, size = {"sigma": (S, S), "rho": (np.sqrt(S), np.sqrt(S)), "delta": (r * r - 2 * m * r + al * al + rq * rq, r * r), "alpha": (al, m), "schwarzschild_radius": (2 * m, m)}[name]
        un = {"r": u.m, "t": u.rad, "M": u.kg, "a": u.one, "Q": u.C}
        for units in itertools.product(*[(None,) + ARGU[k] for k in args]):
            vals = [si[k] if q is None else (si[k] * un[k]).to(q) for k, q in zip(args, units)]
            got = fn(*vals)
            ctx.step()
            key = "static:%s:%s" % (name, "/".join("float" if q is None else str(q) for q in units))
            ctx.state(key, M, a, f, x, th)
            got = getattr(got, "value", got)
            ctx.outcome(name, round(float(got) / size, 9))
            ctx.check(abs(float(got) - want) <= 1e-8 * size, key, lambda: "%s: %s%s = %r, expected %r" % (key, name, vals, got, want))
        ctx.trace()


def kinds(kind, ctx):
    """the same quantity as a plain Quantity, an astropy Constant, an Angle, a Longitude, a Distance, an integer ... Quantity"""
    from astropy import constants
    from astropy.coordinates import Angle, Distance, Longitude
    masses = [lambda c: u.Quantity(c.value, c.unit), lambda c: c, lambda c: c.to(u.g), lambda c: u.Quantity(np.array(c.value), c.unit)]
    lens = [lambda v: v * u.m, lambda v: Distance(v, u.m), lambda v: u.Quantity(int(v), u.m, dtype=int), lambda v: Distance(v / 1e3, u.km)]
    angs = [lambda v: v * u.rad, lambda v: Angle(v, u.rad), lambda v: Longitude(v, u.rad), lambda v: Angle(np.rad2deg(v), u.deg)]
    spins = [lambda v: v * u.one, lambda v: u.Quantity(np.array(v)), lambda v: u.Quantity(np.float64(v), u.dimensionless_unscaled)]
    ref = {}
    for star in ("M_sun", "M_jup"):
        C = getattr(constants, star)
        for (i, m), (j, le), (k, an), (n, sp) in itertools.product(*map(enumerate, (masses, lens, angs, spins))):
            M, a = m(C), sp(0.5)
            key = "kinds:%s:%d%d%d%d" % (kind, i, j, k, n)
            ctx.state(star, i, j, k, n)
            ctx.step()
            v, w = 2.5e6 * u.m / u.s, 0.03 * u.rad / u.s
            if kind == "cart":
                if k:
                    continue
                d = CartesianDifferential(5. * u.s, le(70000000), le(23000000), le(31000000), v, -v, 2 * v)
            else:
                d = (SphericalDifferential if kind == "sph" else BoyerLindquistDifferential)(5. * u.s, le(70000000), an(1.1), an(2.4), v, w, 2 * w)
            out = [BaseMetric.schwarzschild_radius(M), BaseMetric.alpha(M, a), BaseMetric.delta(le(70000000), M, a), d.position(), d.values()]
            for nm in ("cartesian_differential", "spherical_differential", "bl_differential"):
                if hasattr(d, nm):
                    out.append(getattr(d, nm)(M=M, a=a).values())
            if kind == "sph":
                g = Schwarzschild(coords=d, M=M)
                out += [g.sch_rad, d.velocity(g), g.metric_covariant(np.array(d.position(), dtype=float)), g.singularities()["outer_horizon"]]
            if kind == "bl":
                g = KerrNewman(coords=d, M=M, a=a, Q=u.Quantity(0., u.C))
                out += [g.sch_rad, d.velocity(g), g.metric_covariant(np.array(d.position(), dtype=float)), g.singularities()["outer_horizon"]]
            ctx.check(not any(isinstance(o, u.Quantity) and o.unit != u.one for o in out), key + ":unit", lambda: "%s: a result keeps a unit: %s" % (key, out))
            out = [np.asarray(getattr(o, "value", o), dtype=float) for o in out]
            want = ref.setdefault(star, out)
            ctx.outcome(out[0].tobytes())
            ctx.check(same(out, want, 1e-9), key, lambda: "%s: %s, with plain quantities %s" % (key, out, want))
        ctx.trace()


def cases(tier):
    out = [dict(name="metric:%s" % k, metric=k) for k in ("sch", "kerr", "kn", "base")]
    out += [dict(name="coords:%s" % k, coords=k) for k in ("cart", "sph", "bl")]
    out += [dict(name="kinds:%s" % k, kinds=k) for k in ("cart", "sph", "bl")]
    out.append(dict(name="refuse", refuse=1))
    out += [dict(name="static:%s" % k, static=k) for k in STATIC]
    return out


def build(kind, M, a, Q, q, coords):
    if kind == "sch":
        return Schwarzschild(coords=coords, M=M)
    if kind == "kerr":
        return Kerr(coords=coords, M=M, a=a)
    if kind == "base":
        return BaseMetric(coords=coords, M=M, a=a, Q=Q, name="Kerr Metric")
    return KerrNewman(coords=coords, M=M, a=a, Q=Q, q=q)


def answers(kind, g, ctx):
    rs = g.sch_rad
    out = [rs]
    for x, th in itertools.product((1.3, 4.0, 1e3), (0.6, np.pi / 2, 2.2)):
        xs = np.array([0., x * 29533.0, th, 0.])
        ctx.step(4)
        if kind != "base":
            out += [g.metric_covariant(xs), g.metric_contravariant(xs), g.christoffels(xs), g.f_vec(0., np.concatenate((xs, [1.2, 1e6, 30., 40.])))]
        if kind == "kn":
            out += [g.em_potential_covariant(xs), g.em_potential_contravariant(xs), g.em_tensor_covariant(xs), g.em_tensor_contravariant(xs)]
    s = g.singularities()
    out += [v(np.array([0.2, 1.0])) if callable(v) else v for _, v in sorted(s.items())]
    return [np.asarray(o, dtype=float) for o in out]


def same(p, q, tol=1e-9):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if a.shape != b.shape:
            return False
        if not np.all(abs(a - b) <= tol * abs(b) + 1e-12 * np.max(abs(b), initial=0) * (a.ndim == 0)):
            # off-diagonal entries that are pure rounding
            if not np.all(abs(a - b) <= 1e-6 * abs(b) + 1e-300):
                return False
    return True


def run_case(case, ctx):
    if "kinds" in case:
        return kinds(case["kinds"], ctx)
    if "static" in case:
        return static(case["static"], ctx)
    if "metric" in case:
        kind = case["metric"]
        M, a, Q, q = 1.9885e31 * u.kg, 0.6 * u.one, charge(1.9885e31, 0.4) * u.C, 1e-3 * u.C / u.kg
        coords = sph() if kind == "sch" else bl()
        base = answers(kind, build(kind, M, a, Q, q, coords), ctx)
        ctx.check(all(np.all(np.isfinite(b)) for b in base), kind + ":finite", kind + ": results not finite")
        for mu, qu, au, qm in itertools.product(MU, QU if kind in ("kn", "base") else QU[:1], AU_ if kind != "sch" else AU_[:1], QM if kind == "kn" else QM[:1]):
            g = build(kind, M.to(mu), a.to(au), Q.to(qu), q.to(qm), coords)
            key = "%s:%s:%s:%s:%s" % (kind, mu, qu, au, qm)
            ctx.state(key)
            got = answers(kind, g, ctx)
            ctx.outcome(*[b.tobytes() for b in got[:3]])
            bad = [i for i, (x, y) in enumerate(zip(got, base)) if not same([x], [y], 1e-8)]
            ctx.check(len(got) == len(base) and not bad, key, lambda: "%s: result %d changes with the units: %s, expected %s" % (key, bad[0], got[bad[0]], base[bad[0]]))
            ctx.check(u.isclose(g.M, M) and (kind == "sch" or u.isclose(g.a, a)), key + ":attr", key + ": stored parameters differ")
            ctx.trace()
        return
    if "coords" in case:
        kind = case["coords"]
        t, r = 5.0 * u.s, 7.0e7 * u.m
        th, ph = 1.1 * u.rad, 2.4 * u.rad
        v, w = 2.5e6 * u.m / u.s, 0.03 * u.rad / u.s
        ref = None
        for lu, au, tu in itertools.product(LEN, ANG, TIM):
            vu, wu = lu / tu, au / tu
            if kind == "cart":
                if au is not u.rad:
                    continue
                d = CartesianDifferential(t.to(tu), r.to(lu), (-2 * r).to(lu), (0.7 * r).to(lu), v.to(vu), (-v).to(vu), (2 * v).to(vu))
            else:
                cls = SphericalDifferential if kind == "sph" else BoyerLindquistDifferential
                d = cls(t.to(tu), r.to(lu), th.to(au), ph.to(au), v.to(vu), w.to(wu), (2 * w).to(wu))
            key = "%s:%s:%s:%s" % (kind, lu, au, tu)
            ctx.state(key)
            out = [d.position(), d.values()]
            kw = {"M": 1e33 * u.kg, "a": 0.5 * u.one}
            if kind != "cart":
                out.append(d.velocity(make("sch", 1e33, 0, 0, coords=d) if kind == "sph" else make("kerr", 1e33, 0.5, 0, coords=d)))
            for nm in ("cartesian_differential", "spherical_differential", "bl_differential"):
                if hasattr(d, nm):
                    for k2 in (kw, {"M": kw["M"].to(u.M_sun), "a": kw["a"].to(u.percent)}, {"M": 1e33, "a": 0.5}):
                        out.append(getattr(d, nm)(**k2).values())
                        ctx.step()
            out = [np.array(o, dtype=float) for o in out]
            ref = ref or out
            ctx.outcome(out[0].tobytes())
            ctx.check(same(out, ref, 1e-9), key, lambda: "%s: %s, with SI units %s" % (key, out, ref))
            ctx.trace()
        return
    # wrong dimensions
    WRONG = (1 * u.m, 1 * u.kg, 1 * u.C, 1 * u.K, 1 * u.s, 1 * u.m / u.s, 1 * u.rad / u.s, 1 * u.one, 1 * u.rad, 1 * u.J)
    specs = {
        "Schwarzschild": (Schwarzschild, {"coords": sph()}, {"M": 1 * u.kg}),
        "Kerr": (Kerr, {"coords": bl()}, {"M": 1 * u.kg, "a": 0.5 * u.one}),
        "KerrNewman": (KerrNewman, {"coords": bl()}, {"M": 1 * u.kg, "a": 0.5 * u.one, "Q": 1 * u.C, "q": 1 * u.C / u.kg}),
        "BaseMetric": (BaseMetric, {"coords": bl()}, {"M": 1 * u.kg, "a": 0.5 * u.one, "Q": 1 * u.C}),
        "Cartesian": (CartesianDifferential, {}, dict(t=1 * u.s, x=1 * u.m, y=1 * u.m, z=1 * u.m, v_x=1 * u.m / u.s, v_y=1 * u.m / u.s, v_z=1 * u.m / u.s)),
        "Spherical": (SphericalDifferential, {}, dict(t=1 * u.s, r=1 * u.m, theta=1 * u.rad, phi=1 * u.rad, v_r=1 * u.m / u.s, v_th=1 * u.rad / u.s, v_p=1 * u.rad / u.s)),
        "BoyerLindquist": (BoyerLindquistDifferential, {}, dict(t=1 * u.s, r=1 * u.m, theta=1 * u.rad, phi=1 * u.rad, v_r=1 * u.m / u.s, v_th=1 * u.rad / u.s, v_p=1 * u.rad / u.s)),
        "Body": (Body, {"name": "b"}, {"mass": 1 * u.kg, "q": 1 * u.C, "R": 1 * u.km}),
    }
    for nm, (cls, fixed, good) in specs.items():
        cls(**fixed, **good)
        for arg, val in good.items():
            for bad in WRONG:
                key = "%s:%s:%s" % (nm, arg, bad.unit)
                ctx.state(key)
                if bad.unit.is_equivalent(val.unit) or (bad.unit in (u.one, u.rad) and val.unit in (u.one, u.rad)):
                    continue
                ctx.raises((u.UnitsError, TypeError), lambda: cls(**fixed, **dict(good, **{arg: bad})), key, "%s(%s=%s)" % (nm, arg, bad))
            if val.unit != u.one:
                ctx.raises((u.UnitsError, TypeError), lambda: cls(**fixed, **dict(good, **{arg: 1.0})), "%s:%s:float" % (nm, arg), "%s(%s=1.0)" % (nm, arg))
            ctx.trace()
