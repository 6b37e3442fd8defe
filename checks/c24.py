"""Position conversions: one point, whatever chain of conversions it takes."""
import itertools
import mpmath as mp
import numpy as np
import astropy.units as u
from einsteinpy.coordinates import Cartesian, Spherical, BoyerLindquist
from einsteinpy.coordinates.conversion import CartesianConversion, SphericalConversion, BoyerLindquistConversion
from mc import coordref, knref

PID = "C24"
LEVEL = "model_checking"
BOUND = {"quick": "all sign patterns of (x,y,z) in {-,0,+} x 4 shapes x 6 scales x 4 rotation parameters; every chain of conversions of length <= 3 between the 3 systems; "
                  "angular starting points on 11x10 angles; 4 times x 5 masses and sizes x 6 kinds of number on chains of length 2; 144 points within 0.1 to 1e-9 of the axis on chains of length <= 3", "thorough": "chains of length <= 5, 8 scales"}
ASSUMPTIONS = ["Cartesian images agree to 1e-9 of the distance from the origin, plus 4e-15 alpha (an angle near pi is only known to its last digit)"]
M0 = 1.0e30


def warm():
    c = Cartesian(1 * u.s, 1 * u.m, 2 * u.m, 3 * u.m)
    c.to_spherical().to_cartesian()
    c.to_bl(M=M0, a=0.5).to_cartesian(M=M0, a=0.5)


def cases(tier):
    out = []
    scales = (1e-3, 20.0, 1e3, 4e3, 1e6, 1.5e11) + ((200.0, 1e20) if tier == "thorough" else ())
    for s in scales:
        for a in (0.0, 0.3, 0.97, 1.0):
            out.append(dict(name="cart:%g:a%g" % (s, a), start="Cartesian", s=s, a=a))
            out.append(dict(name="sph:%g:a%g" % (s, a), start="Spherical", s=s, a=a))
            out.append(dict(name="bl:%g:a%g" % (s, a), start="BoyerLindquist", s=s, a=a))
    out.append(dict(name="api", api=1))
    out.append(dict(name="axis", axis=1))
    for t in (0.0, -3.5, 1e-12, 4e17):
        for M, s in ((1.0, 1e-3), (M0, 1e3), (1e41, 3e14), (1e-3, 2e9), (2e50, 5.0)):
            out.append(dict(name="extra:t%g:M%g:s%g" % (t, M, s), extra=1, t=t, M=M, s=s))
    return out


NEXT = {"Cartesian": ("Spherical", "BoyerLindquist"), "Spherical": ("Cartesian", "BoyerLindquist"), "BoyerLindquist": ("Cartesian", "Spherical")}
METH = {"Cartesian": "to_cartesian", "Spherical": "to_spherical", "BoyerLindquist": "to_bl"}
CLS = {"Cartesian": Cartesian, "Spherical": Spherical, "BoyerLindquist": BoyerLindquist}


def starts(kind, s, al):
    if kind == "Cartesian":
        for sg in itertools.product((0, 1, -1), repeat=3):
            for sh in ((1., 1., 1.), (1., 0.2, 3.), (1e-3, 1., 0.5), (2., 1e-7, 1e-4)):
                p = tuple(g * q * s for g, q in zip(sg, sh))
                if any(p):
                    yield p
        if al:
            for f in (1.0, 0.6, 1e-5):
                yield from ((f * al, 0., 0.), (0., -f * al, 0.), (-0.6 * f * al, 0.8 * f * al, 0.), (f * al, 0., 1e-9 * al), (f * al, 0., -1e-3 * al))
    else:
        for th, ph in itertools.product((0.0, 1e-6, 0.3, np.pi / 2, 1.9, 2.9, np.pi - 1e-5, np.pi, 0.9, 4.0, -0.5), (0.0, 1e-6, 0.8, np.pi / 2, np.pi, -np.pi / 2, -2.5, 3.1, 5.0, -8.0)):
            yield (s, th, ph)


def image(kind, q, al):
    if kind == "Cartesian":
        return tuple(map(mp.mpf, q))
    return coordref.cart_of(*q, al if kind == "BoyerLindquist" else 0)


def vals(o):
    v = o.values()
    return tuple(float(x) for x in v)


def close_points(p, q):
    d = mp.sqrt(mp.fsum((mp.mpf(a) - b) ** 2 for a, b in zip(p, q)))
    n = mp.sqrt(mp.fsum(b * b for b in q))
    return float(d / n) if n else float(d)


def tolerance(P, al):
    """an angle near pi is only known to its last digit, and then the distance from the axis to that times alpha"""
    n = float(mp.sqrt(mp.fsum(x * x for x in P)))
    return 1e-9 + 4e-15 * al / n


def axis(ctx):
    """points close to the axis keep their small distance from it"""
    for s, eps, z, al_a, dirn in itertools.product((1e3, 1.5e11), (1e-1, 1e-3, 1e-6, 1e-9), (1, -1), (0.0, 0.4, 0.97), ((1., 0.), (-3., 4.), (0., -1.))):
        n = float(np.hypot(*dirn))
        q = (eps * s * dirn[0] / n, eps * s * dirn[1] / n, z * s)
        for L in (1, 2, 3):
            for words in itertools.product(CLS, repeat=L):
                o = Cartesian(1 * u.s, *[x * u.m for x in q])
                at, key = "Cartesian", "axis:s%g:e%g:%d:a%g:%s:%s" % (s, eps, z, al_a, dirn, ">".join(words))
                if any(a == b for a, b in zip(("Cartesian",) + words, words)):
                    continue
                for w in words:
                    o = getattr(o, METH[w])(M=M0, a=al_a)
                    ctx.step()
                ctx.state(key)
                al = float(knref.Ref(M0, al_a, 0, 1, 1).al)
                P = image(words[-1], vals(o)[1:4], al)
                d = float(mp.sqrt((P[0] - q[0]) ** 2 + (P[1] - q[1]) ** 2))
                # an angle near pi is only known to its last digit
                tol = (1e-9 + (2e-14 / eps if z < 0 else 0)) * eps * s * 10
                ctx.check(d <= tol and float(P[2]) * z > 0, key, lambda: "%s: %s became %s" % (key, q, [float(x) for x in P]))
                ctx.outcome(eps, z, words[-1])
                ctx.trace()


PLAIN = {"Cartesian": CartesianConversion, "Spherical": SphericalConversion, "BoyerLindquist": BoyerLindquistConversion}
CONV = {"Cartesian": "convert_cartesian", "Spherical": "convert_spherical", "BoyerLindquist": "convert_bl"}
NUMS = {"float": float, "np.float64": np.float64, "0-d": np.array, "int": int, "np.int64": np.int64, "np.int32": np.int32,
        "whole": lambda x: int(x) if float(x).is_integer() and abs(x) < 9e18 else x}


def extra(case, ctx):
    """other times, masses and sizes; plain conversion classes fed with every kind of number; two-step chains"""
    t, M, s = case["t"], case["M"], case["s"]
    for a in (0.0, 1e-9, 0.6):
        al = float(knref.Ref(M, a, 0, 1, 1).al)
        for kind in CLS:
            pts = [(3., -4., 12.), (-1., 2., 0.), (0., -7., 5.)] if kind == "Cartesian" else [(3., 1., 2.), (5., 2., -3.), (2., 3., 0.)]
            for q in pts:
                q = tuple(x * s for x in q) if kind == "Cartesian" else (q[0] * s,) + q[1:]
                P = image(kind, q, al)
                unit = [u.m] * 3 if kind == "Cartesian" else [u.m, u.rad, u.rad]
                for nn, conv in NUMS.items():
                    if "int" in nn and (any(x != int(x) for x in q + (t,)) or max(map(abs, q + (t,))) > (2e9 if nn == "np.int32" else 9e18)):
                        continue
                    z = [conv(x) for x in (t,) + q]
                    for to in NEXT[kind]:
                        for via in (None,) + NEXT[to]:
                            if via in (None, kind):
                                got = getattr(PLAIN[kind](*z), CONV[to])(M=M, a=a)
                                got2 = vals(getattr(CLS[kind](t * u.s, *[x * k for x, k in zip(q, unit)]), METH[to])(M=M, a=a))
                            else:
                                mid = getattr(PLAIN[kind](*z), CONV[via])(M=M, a=a)
                                got = getattr(PLAIN[via](*mid), CONV[to])(M=M, a=a)
                                got2 = vals(getattr(getattr(CLS[kind](t * u.s, *[x * k for x, k in zip(q, unit)]), METH[via])(M=M, a=a), METH[to])(M=M, a=a))
                            ctx.step(2)
                            for which, g in (("plain", got), ("object", got2)):
                                key = "extra:%s:M%g:a%g:%s:%s>%s>%s:%s:%s" % (t, M, a, q, kind, via, to, nn, which)
                                ctx.state(key)
                                ctx.check(float(g[0]) == t, key + ":t", lambda: "%s: time became %r" % (key, g[0]))
                                e = close_points(image(to, [float(x) for x in g[1:4]], al), P)
                                ctx.check(e < tolerance(P, al), key, lambda: "%s: %s is another point (off by %.3g of its distance)" % (key, g[1:], e))
                                ctx.outcome(to, tuple(round(float(x) / s, 5) for x in g[1:4]))
                            ctx.trace()


def run_case(case, ctx):
    if "extra" in case:
        return extra(case, ctx)
    if "axis" in case:
        return axis(ctx)
    if "api" in case:
        return api(ctx)
    kind, s, a = case["start"], case["s"], case["a"]
    al = float(knref.Ref(M0, a, 0, 1, 1).al)
    depth = 3 if ctx.tier == "quick" else 5
    for q in starts(kind, s, al):
        P = image(kind, q, al)
        tolf = tolerance(P, al)
        unit = [u.m, u.m, u.m] if kind == "Cartesian" else [u.m, u.rad, u.rad]
        start = CLS[kind](12.5 * u.s, *[x * k for x, k in zip(q, unit)])
        before = vals(start)
        level = [(kind, start)]
        for d in range(depth):
            nxt = []
            for sysname, obj in level:
                for to in NEXT[sysname]:
                    conv = getattr(obj, METH[to])
                    new = conv(M=M0, a=a)
                    ctx.step()
                    key = "%s:%s:%s>%s" % (case["name"], tuple("%.4g" % x for x in q), sysname, to)
                    ctx.state(key, d)
                    v = vals(new)
                    ctx.outcome(to, tuple(round(x / (s if i == 1 or to == "Cartesian" else 1), 5) for i, x in enumerate(v)))
                    ctx.check(type(new) is CLS[to] and new.system == to, key + ":type", lambda: "%s: got a %s (%s)" % (key, type(new).__name__, new.system))
                    ctx.check(v[0] == 12.5 and len(v) == 4, key + ":time", lambda: "%s: time changed: %s" % (key, v))
                    e = close_points(image(to, v[1:], al), P)
                    ctx.check(e < tolf, key, lambda: "%s: %s is another point (off by %.3g of its distance)" % (key, v[1:], e))
                    if to != "Cartesian":
                        ctx.check(v[1] >= 0 and -1e-12 <= v[2] <= np.pi + 1e-12 and abs(v[3]) <= np.pi + 1e-12, key + ":range",
                                  lambda: "%s: r=%r theta=%r phi=%r out of range" % (key, v[1], v[2], v[3]))
                    # quantities carried by the object equal the plain values
                    names = ("t", "x", "y", "z") if to == "Cartesian" else ("t", "r", "theta", "phi")
                    ctx.check(tuple(float(getattr(new, n).si.value) for n in names) == v, key + ":attrs", key + ": attributes differ from values()")
                    nxt.append((to, new))
            level = nxt
        ctx.check(vals(start) == before, case["name"] + ":pure", "conversion changed its source")
        ctx.trace(len(level))
        if kind == "Cartesian" and a == 0:
            sp_, bl_ = start.to_spherical(), start.to_bl(M=M0, a=0.0)
            ctx.check(np.allclose(vals(sp_), vals(bl_), rtol=1e-9, atol=1e-9 * s), case["name"] + ":a0", "Boyer-Lindquist without rotation is not spherical")


def api(ctx):
    """missing or illegal parameters, quantities or floats for M and a, plain conversion classes"""
    mk = {"Cartesian": lambda: Cartesian(1 * u.s, 2e3 * u.m, 3e3 * u.m, -4e3 * u.m), "Spherical": lambda: Spherical(1 * u.s, 5e3 * u.m, 1.1 * u.rad, 2.0 * u.rad),
          "BoyerLindquist": lambda: BoyerLindquist(1 * u.s, 5e3 * u.m, 1.1 * u.rad, 2.0 * u.rad)}
    for sysname, f in mk.items():
        for to in NEXT[sysname]:
            needs = "BoyerLindquist" in (sysname, to)
            for kw in ({}, {"M": M0}, {"a": 0.5}):
                fn = lambda: getattr(f(), METH[to])(**kw)
                ctx.state(sysname, to, sorted(kw))
                if needs:
                    ctx.raises(KeyError, fn, "api:%s>%s:%s" % (sysname, to, sorted(kw)), "conversion %s to %s with only %s" % (sysname, to, sorted(kw)))
                else:
                    fn()
                    ctx.step()
            for a in (-0.1, 1.01, 5):
                if needs:
                    ctx.raises(ValueError, lambda: getattr(f(), METH[to])(M=M0, a=a), "api:%s>%s:a%g" % (sysname, to, a), "conversion %s to %s with spin %g" % (sysname, to, a))
            ref = vals(getattr(f(), METH[to])(M=M0, a=0.5))
            for M in (M0, M0 * u.kg, M0 * 1e3 * u.g):
                for a in (0.5, 0.5 * u.one, np.float64(0.5)):
                    got = vals(getattr(f(), METH[to])(M=M, a=a))
                    ctx.step()
                    ctx.check(np.allclose(got, ref, rtol=1e-10), "api:%s>%s:units" % (sysname, to), "mass or spin as quantity gives %s, as float %s" % (got, ref))
        ctx.trace()
    # plain conversion classes: 4 values in, 4 values out; all three velocities or none
    plain = {"Cartesian": CartesianConversion, "Spherical": SphericalConversion, "BoyerLindquist": BoyerLindquistConversion}
    C2 = {"Cartesian": "convert_cartesian", "Spherical": "convert_spherical", "BoyerLindquist": "convert_bl"}
    for sysname, cls in plain.items():
        pos = (1.0, 2e3, 3e3, -4e3) if sysname == "Cartesian" else (1.0, 5e3, 1.1, 2.0)
        for mask in itertools.product((0, 1), repeat=3):
            vel = [10.0 * (i + 1) if m else None for i, m in enumerate(mask)]
            o = cls(*pos, *vel)
            n = 7 if all(mask) else 4
            ctx.step()
            ctx.state("plain", sysname, mask)
            ctx.check(len(o.values()) == n and tuple(o.values()[:4]) == pos, "plain:%s:%s" % (sysname, mask), "values() has %d entries" % len(o.values()))
            for to in NEXT[sysname]:
                r = getattr(o, C2[to])(M=M0, a=0.5)
                ctx.step()
                ctx.check(len(r) == n, "plain:%s>%s:%s" % (sysname, to, mask), "%s to %s returned %d values" % (sysname, to, len(r)))
                r4 = getattr(cls(*pos), C2[to])(M=M0, a=0.5)
                ctx.check(np.allclose(np.array(r[:4], float), np.array(r4, float), rtol=1e-9), "plain:%s>%s:pos" % (sysname, to), "position depends on whether velocities are given")
    # mixed system classes agree with the quantity classes
    for sysname, f in mk.items():
        o = f()
        p = plain[sysname](*vals(o))
        for to in NEXT[sysname]:
            ctx.check(np.allclose(np.array(getattr(p, C2[to])(M=M0, a=0.5), float), vals(getattr(o, METH[to])(M=M0, a=0.5)), rtol=1e-12), "plain:%s>%s:same" % (sysname, to), "classes disagree")
            ctx.step(2)
