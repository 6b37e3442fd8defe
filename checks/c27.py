"""Access to coordinates: position(), subscripts, attributes, bodies."""
import itertools
import numpy as np
import astropy.units as u
from einsteinpy.coordinates import Cartesian, Spherical, BoyerLindquist
from einsteinpy import bodies
from einsteinpy.bodies import Body
from mc import knref
from mc.num import *

PID = "C27"
LEVEL = "model_checking"
BOUND = {"quick": "3 position classes and 3 differential classes x 27 sign/zero patterns x 3 unit systems; every subscript in -5..5 and every name; bodies: every subset of arguments x every "
                  "coordinate type x parents with and without coordinates, parent chains to depth 4", "thorough": "the same (the space is finite and covered)"}
ASSUMPTIONS = []
NAMES = {"Cartesian": ("t", "x", "y", "z"), "Spherical": ("t", "r", "theta", "phi"), "BoyerLindquist": ("t", "r", "theta", "phi")}
VN = {"Cartesian": ("v_x", "v_y", "v_z"), "Spherical": ("v_r", "v_th", "v_p"), "BoyerLindquist": ("v_r", "v_th", "v_p")}
POS = {"Cartesian": Cartesian, "Spherical": Spherical, "BoyerLindquist": BoyerLindquist}
DIF = {"Cartesian": CartesianDifferential, "Spherical": SphericalDifferential, "BoyerLindquist": BoyerLindquistDifferential}


def cases(tier):
    return [dict(name=k, system=k) for k in NAMES] + [dict(name="bodies", bodies=1)]


def run_case(case, ctx):
    if "bodies" in case:
        return body(ctx)
    system = case["system"]
    c = float(knref.C)
    for lu, au, tu in ((u.m, u.rad, u.s), (u.km, u.deg, u.ms), (u.AU, u.arcmin, u.hour)):
        for sg in itertools.product((0, 1, -1), repeat=4):
            t = 3.0 * sg[0]
            if system == "Cartesian":
                si = [t] + [k * q for k, q in zip(sg[1:], (2e4, 3e7, 4e9))]
                qs = [si[0] * u.s] + [v * u.m for v in si[1:]]
                un = [tu, lu, lu, lu]
            else:
                si = [t, 5e6 * (1 + 0.5 * sg[1]), 1.3 + 0.9 * sg[2], 2.0 * sg[3]]
                qs = [si[0] * u.s, si[1] * u.m, si[2] * u.rad, si[3] * u.rad]
                un = [tu, lu, au, au]
            qs = [q.to(x) for q, x in zip(qs, un)]
            key = "%s:%s:%s" % (system, sg, lu)
            ctx.state(key)
            p = POS[system](*qs)
            vs = [sg[1] * 10. * u.m / u.s] + [(sg[2] * 2. * u.m / u.s), (sg[3] * 3. * u.m / u.s)] if system == "Cartesian" else \
                [sg[1] * 10. * u.m / u.s, sg[2] * 2. * u.rad / u.s, sg[3] * 3. * u.rad / u.s]
            d = DIF[system](*qs, *vs)
            want = [c * si[0]] + si[1:]
            for o in (p, d):
                got = o.position()
                ctx.step()
                ctx.outcome(str(got))
                ctx.check(len(got) == 4 and all(abs(float(g) - w) <= 1e-12 * abs(w) for g, w in zip(got, want)), key + ":position", lambda: "%s: position() = %s, expected %s" % (key, got, want))
                ctx.check(all(getattr(o, n) is q or u.isclose(getattr(o, n), q) for n, q in zip(NAMES[system], qs)), key + ":attrs", key + ": attributes differ")
                ctx.check(o.system == system, key + ":system", key + ": system is %r" % o.system)
                v = o.values()
                ctx.check(all(abs(float(g) - w) <= 1e-12 * abs(w) for g, w in zip(v, si)), key + ":values", lambda: "%s: values() = %s, expected %s" % (key, v, si))
                s = str(o) + repr(o)
                ctx.check(all(str(q) in s for q in qs), key + ":str", key + ": printed form misses a coordinate")
            ctx.check(all(abs(float(g) - float(w.si.value)) <= 1e-12 * abs(float(w.si.value)) for g, w in zip(d.values()[4:], vs)) and len(d.values()) == 7,
                      key + ":velocities", lambda: "%s: velocities %s" % (key, d.values()[4:]))
            ctx.check(all(u.isclose(getattr(d, n), q) for n, q in zip(VN[system], vs)), key + ":vattrs", key + ": velocity attributes differ")
            # subscripts of positions: names and every integer index
            for n, q in zip(NAMES[system], qs):
                ctx.check(p[n] is getattr(p, n) or u.isclose(p[n], q), key + ":[%s]" % n, key + ": subscript by name")
                ctx.step()
            ctx.check(p["system"] == system, key + ":[system]", key + ": subscript 'system'")
            for i in range(-5, 6):
                for I in (i, np.int64(i)):
                    ctx.step()
                    if -4 <= i < 4:
                        ctx.check(u.isclose(p[I], qs[i]), key + ":[%d]" % i, lambda: "%s: [%d] = %s, expected %s" % (key, i, p[I], qs[i]))
                    else:
                        ctx.raises(IndexError, lambda: p[I], key + ":[%d]" % i, "%s: index %d" % (key, i))
            ctx.raises(KeyError, lambda: p["nope"], key + ":[nope]", key + ": unknown name")
            ctx.trace()


def body(ctx):
    co = {"none": None, "Cartesian": cart(1., 2., 3., 4., 5., 6., 7.), "Spherical": sph(1., 2., .3, .4, 5., 6., 7.), "BoyerLindquist": bl(1., 2., .3, .4, 5., 6., 7.)}
    opts = {"name": "n", "mass": 3 * u.kg, "q": -2 * u.C, "R": 4 * u.km}
    placed = [Body(name="placed %s" % n, mass=7 * u.kg, q=2 * u.C, R=9 * u.km, coords=c, parent=bodies.Sun) for n, c in co.items() if c is not None]
    for mask in itertools.product((0, 1), repeat=4):
        kw = {k: v for (k, v), m in zip(opts.items(), mask) if m}
        for cn, cv in co.items():
            for par in (None, bodies.Sun, bodies.Earth, bodies.Moon, *placed):
                b = Body(**kw, coords=cv, parent=par)
                key = "body:%s:%s:%s" % (mask, cn, par and par.name)
                ctx.step()
                ctx.state(key)
                want = dict(name="Generic Body", mass=0 * u.kg, q=0 * u.C, R=0 * u.km, **{}) | kw
                ctx.check(all(getattr(b, k) == v for k, v in want.items()) and b.parent is par and b.coords is cv, key, key + ": attributes differ from the arguments")
                if cv is not None:
                    pw = [getattr(cv, n) for n in NAMES[cn][1:]]
                    vw = [getattr(cv, n) for n in VN[cn]]
                    ctx.check(len(b.pos_vec) == 3 and all(x == y for x, y in zip(b.pos_vec, pw)), key + ":pos", lambda: "%s: pos_vec %s" % (key, b.pos_vec))
                    ctx.check(len(b.vel_vec) == 3 and all(x == y for x, y in zip(b.vel_vec, vw)), key + ":vel", lambda: "%s: vel_vec %s" % (key, b.vel_vec))
                else:
                    ctx.check(getattr(b, "pos_vec", None) is None and getattr(b, "vel_vec", None) is None, key + ":nowhere", lambda: "%s: a body without coordinates has position %s" % (key, b.pos_vec))
                s = str(b)
                ctx.outcome(s)
                ctx.check(b.name in s and str(b.mass) in s and (par is None or par.name in s), key + ":str", key + ": printed form")
                ctx.trace()
    chain = None
    for i in range(4):
        chain = Body(name="b%d" % i, mass=(i + 1) * u.kg, parent=chain)
        n, x = 0, chain
        while x is not None:
            n, x = n + 1, x.parent
        ctx.state("chain", i)
        ctx.check(n == i + 1 and chain.mass == (i + 1) * u.kg, "chain", "parents are lost")
    # two bodies never share state through defaults
    a, b = Body(), Body()
    ctx.check(a is not b and a.mass == b.mass == 0 * u.kg, "defaults", "defaults")
    # the solar system: parents, and masses/radii within 10 percent of the literature
    lit = {"Sun": (1.989e30, 6.957e5, None), "Earth": (5.972e24, 6371, "Sun"), "Moon": (7.348e22, 1737, "Earth"), "Mercury": (3.301e23, 2440, "Sun"), "Venus": (4.867e24, 6052, "Sun"),
           "Mars": (6.417e23, 3390, "Sun"), "Jupiter": (1.898e27, 69911, "Sun"), "Saturn": (5.683e26, 58232, "Sun"), "Uranus": (8.681e25, 25362, "Sun"),
           "Neptune": (1.024e26, 24622, "Sun"), "Pluto": (1.303e22, 1188, "Sun")}
    for n, (m, R, par) in lit.items():
        b = getattr(bodies, n)
        ctx.step()
        ctx.state("solar", n)
        ctx.check(b.name == n and (b.parent.name if b.parent else None) == par, "solar:%s" % n, "%s: name %r, parent %r" % (n, b.name, b.parent and b.parent.name))
        ctx.check(abs(b.mass.to_value(u.kg) / m - 1) < 0.01, "solar:%s:mass" % n, "%s: mass %s" % (n, b.mass))
        Rk = b.R.to_value(u.km)
        rkey = "earth-radius-6731" if n == "Earth" and abs(Rk - 6731) < 1e-6 else "solar:%s:radius" % n
        ctx.check(abs(Rk / R - 1) < 0.01, rkey, "%s: radius %s" % (n, b.R))
