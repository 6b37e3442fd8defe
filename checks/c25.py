"""Velocity conversions: one tangent vector, whatever chain of conversions it takes."""
import itertools
import mpmath as mp
import numpy as np
import astropy.units as u
from einsteinpy.coordinates import CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential
from mc import coordref, knref
from checks.c24 import close_points, image, M0, NEXT, PLAIN, CONV, NUMS

PID = "C25"
LEVEL = "model_checking"
BOUND = {"quick": "all sign patterns (0,+,-) of the position x 3 shapes x 4 scales x 3 rotation parameters x 7 velocity patterns (spherical angles also outside 0..pi); the graph of conversions is explored breadth first, equal states merged; 3 times x 4 masses and sizes x 3 speeds x 6 kinds of number on chains of length 2",
         "thorough": "all 27 velocity patterns, every chain of length <= 4 without merging"}
ASSUMPTIONS = ["Cartesian images of position and velocity agree to 1e-8 relative (relaxed by 1/sin(theta) near the axis and by alpha^2/Sigma near the ring); the axis and the ring themselves, where the angular "
               "velocities do not exist, are excluded"]
CLS = {"Cartesian": CartesianDifferential, "Spherical": SphericalDifferential, "BoyerLindquist": BoyerLindquistDifferential}
METH = {"Cartesian": "cartesian_differential", "Spherical": "spherical_differential", "BoyerLindquist": "bl_differential"}


def warm():
    c = mk("Cartesian", (1., 2., 3.), (1., 2., 3.))
    c.spherical_differential().cartesian_differential()
    c.bl_differential(M=M0, a=0.5).cartesian_differential(M=M0, a=0.5)


def mk(kind, q, v):
    if kind == "Cartesian":
        pu, vu = [u.m] * 3, [u.m / u.s] * 3
    else:
        pu, vu = [u.m, u.rad, u.rad], [u.m / u.s, u.rad / u.s, u.rad / u.s]
    return CLS[kind](12.5 * u.s, *[a * b for a, b in zip(q, pu)], *[a * b for a, b in zip(v, vu)])


def cases(tier):
    out = []
    for kind in CLS:
        for s in (1.0, 1e3, 4e3, 1.5e11):
            for a in (0.0, 0.4, 1.0):
                out.append(dict(name="%s:%g:a%g" % (kind, s, a), start=kind, s=s, a=a))
    for t in (0.0, -3.5, 4e17):
        for M, s in ((1.0, 1e-3), (M0, 1e3), (1e41, 3e14), (2e50, 5.0)):
            out.append(dict(name="extra:t%g:M%g:s%g" % (t, M, s), extra=1, t=t, M=M, s=s))
    return out


def positions(kind, s):
    if kind == "Cartesian":
        for sg in itertools.product((0, 1, -1), repeat=3):
            for sh in ((1., 1., 1.), (1., 0.2, 3.), (1e-3, 1e-3, 1.)):
                p = tuple(g * q * s for g, q in zip(sg, sh))
                if p[0] or p[1]:
                    yield p
    else:
        for th, ph in itertools.product((1e-3, 0.3, np.pi / 2, 1.9, 2.9, np.pi - 1e-3, -0.7, 4.4), (0.0, 0.8, np.pi / 2, np.pi, -np.pi / 2, 5.0)):
            yield (s, th, ph)


def vpatterns(tier):
    allp = list(itertools.product((0, 1, -1), repeat=3))
    return allp if tier == "thorough" else [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, -1), (-1, -1, 1)]


def vimage(kind, q, v, al):
    if kind == "Cartesian":
        return [mp.mpf(x) for x in v]
    return coordref.vel_to_cart(q, v, al if kind == "BoyerLindquist" else 0)


def spread(P, al):
    """how far the derivatives of the coordinates grow: towards the axis and towards the ring; None on them"""
    rb, tb, _ = coordref.bl_of(*P, al)
    sn, sg = float(mp.sin(tb)), float(rb * rb + (al * mp.cos(tb)) ** 2)
    d2 = float(mp.fsum(x * x for x in P))
    if sg < 1e-6 * max(al * al, d2) or not sn:
        return None
    return max(1.0, al * al / sg) * max(1.0, 1e-3 / sn)


def extra(case, ctx):
    """other times, masses and sizes; slow and relativistic velocities; plain conversion classes with floats and integers; a 4-velocity asked for in between"""
    t, M, s = case["t"], case["M"], case["s"]
    for a in (0.0, 0.6):
        al = float(knref.Ref(M, a, 0, 1, 1).al)
        for kind in CLS:
            pts = [(3., -4., 12.), (-1., 2., 0.)] if kind == "Cartesian" else [(3., 1., 2.), (5., 2., -3.)]
            for q in pts:
                q = tuple(x * s for x in q) if kind == "Cartesian" else (q[0] * s,) + q[1:]
                P = image(kind, q, al)
                amp = spread(P, al)
                for vs in (1e-9, 3.0, 2e8):
                    for vp in ((1, 2, -3), (-2, 0, 1), (0, 1, 0), (1, 0, 0)):
                        v = [float(vs * k) for k in vp]
                        if kind != "Cartesian":
                            v = [v[0], v[1] / s, v[2] / s]
                        V = vimage(kind, q, v, al)
                        nV = float(mp.sqrt(mp.fsum(x * x for x in V)))
                        for nn, conv in NUMS.items():
                            full = (t,) + tuple(q) + tuple(v)
                            if "int" in nn and (any(x != int(x) for x in full) or max(map(abs, full)) > (2e9 if nn == "np.int32" else 9e18)):
                                continue
                            for to in NEXT[kind]:
                                for via in (None, [z for z in NEXT[to] if z != kind][0]):
                                    if via is None:
                                        got = getattr(PLAIN[kind](*[conv(x) for x in full]), CONV[to])(M=M, a=a)
                                    else:
                                        got = getattr(PLAIN[via](*getattr(PLAIN[kind](*[conv(x) for x in full]), CONV[via])(M=M, a=a)), CONV[to])(M=M, a=a)
                                    ctx.step()
                                    key = "extra:%s:M%g:a%g:%s:v%s:%s>%s>%s:%s" % (t, M, a, q, v, kind, via, to, nn)
                                    ctx.state(key)
                                    w = [float(x) for x in got]
                                    ctx.check(len(w) == 7 and w[0] == t, key + ":t", lambda: "%s: %s" % (key, w))
                                    W = vimage(to, w[1:4], w[4:], al)
                                    e = float(mp.sqrt(mp.fsum((x - y) ** 2 for x, y in zip(V, W)))) / nV if all(np.isfinite(w)) else float("inf")
                                    ctx.outcome(to, tuple(round(x / vs, 5) for x in w[4:]))
                                    ctx.check(e < 1e-8 * amp, key, lambda: "%s: velocity %s is off by %.3g" % (key, w[4:], e))
                                    ctx.check(close_points(image(to, w[1:4], al), P) < 1e-9 * amp, key + ":pos", lambda: "%s: position %s" % (key, w[1:4]))
                                    ctx.trace()


def run_case(case, ctx):
    if "extra" in case:
        return extra(case, ctx)
    kind, s, a = case["start"], case["s"], case["a"]
    al = float(knref.Ref(M0, a, 0, 1, 1).al)
    depth = 3 if ctx.tier == "quick" else 4
    merge = ctx.tier == "quick"      # quick: every system is expanded once per tangent vector (states that agree are one state)
    for q in positions(kind, s):
        P = image(kind, q, al)
        amp = spread(P, al)
        if amp is None:
            continue
        for vp in vpatterns(ctx.tier):
            v = [2.0e5 * k * (1 + 0.3 * i) for i, k in enumerate(vp)]
            if kind != "Cartesian":
                v = [v[0], v[1] / s, v[2] / s]
            V = vimage(kind, q, v, al)
            nV = max(float(mp.sqrt(mp.fsum(x * x for x in V))), 1e-30)
            if nV < 1.0:
                nV = 1.0
            start = mk(kind, q, v)
            before = tuple(start.values())
            level = [(kind, start, kind[0])]
            expanded = set()
            for d in range(depth):
                nxt = []
                for sysname, obj, path in level:
                    if merge and sysname in expanded:
                        continue
                    expanded.add(sysname)
                    for to in NEXT[sysname]:
                        new = getattr(obj, METH[to])(M=M0, a=a)
                        ctx.step()
                        key = "%s:%s:v%s:%s>%s" % (case["name"], tuple("%.4g" % x for x in q), vp, path, to[0])
                        ctx.state(key)
                        w = tuple(float(x) for x in new.values())
                        ctx.outcome(to, tuple(round(x / (1e5 if i > 3 else s), 4) for i, x in enumerate(w)))
                        ctx.check(type(new) is CLS[to] and new.system == to and len(w) == 7 and w[0] == 12.5, key + ":type", lambda: "%s: got %s %s" % (key, type(new).__name__, w))
                        e = close_points(image(to, w[1:4], al), P)
                        ctx.check(e < 1e-9 * amp, key + ":pos", lambda: "%s: position %s off by %.3g" % (key, w[1:4], e))
                        W = vimage(to, w[1:4], w[4:], al)
                        e = float(mp.sqrt(mp.fsum((x - y) ** 2 for x, y in zip(V, W)))) / nV if all(np.isfinite(w)) else float("inf")
                        ctx.check(e < 1e-8 * amp, key, lambda: "%s: velocity %s is %s in Cartesian components, expected %s" % (key, w[4:], [float(x) for x in W] if np.isfinite(e) else "nan", [float(x) for x in V]))
                        nxt.append((to, new, path + ">" + to[0]))
                level = nxt
            ctx.check(tuple(start.values()) == before, case["name"] + ":pure", "conversion changed its source")
            ctx.trace(max(1, len(level)))
