"""Built-in contravariant metrics for geodesics."""
import itertools
import numpy as np
import mpmath as mp
from einsteinpy.utils.dual import DualNumber
from mc.geo import *
from mc import knref

PID = "C34"
LEVEL = "model_checking"
BOUND = {"quick": "Schwarzschild, Kerr with 9 spins, Kerr-Newman with 9 x 7 spins and charges (incl. negative and extremal) x 10 radii (inside and outside the horizon) x 9 angles x 3 containers; "
                  "every pair of calls on different points", "thorough": "16 radii, 15 angles"}
ASSUMPTIONS = ["components agree with the inverse of the line element (40 digits) to 1e-10 in the natural size of each component, relaxed by the conditioning of r^2-2r+a^2+Q^2 and of sin(theta)"]
SP = (0.0, 0.1, 0.5, 0.9, 0.998, 1.0, -0.3, -1.0, 1e-6)
QS = (0.0, 0.2, -0.2, 0.7, -1.0, 1.0, 1e-6)


def cases(tier):
    out = [dict(name="Schwarzschild", kind="Schwarzschild", prms=[()])]
    out += [dict(name="Kerr:%g" % a, kind="Kerr", prms=[(a,)]) for a in SP]
    out += [dict(name="KerrNewman:%g" % a, kind="KerrNewman", prms=[(a, Q) for Q in QS]) for a in SP]
    return out + [dict(name="calls", calls=1)]


def run_case(case, ctx):
    if "calls" in case:
        pts = [np.array([0., r, t, 0.]) for r in (2.5, 6.0) for t in (0.7, 1.9)]
        ms = [("Schwarzschild", ()), ("Kerr", (0.5,)), ("Kerr", (0.9,)), ("KerrNewman", (0.5, 0.3)), ("KerrNewman", (0.9, -0.3))]
        alone = {(m, i): np.array(FUN[m[0]](pts[i], *m[1]), dtype=float) for m in ms for i in range(4)}
        for A, B in itertools.product(alone, repeat=2):
            first = FUN[A[0][0]](pts[A[1]], *A[0][1])
            keep = np.array(first, dtype=float)
            second = FUN[B[0][0]](pts[B[1]], *B[0][1])
            ctx.step(2)
            ctx.state("calls", A, B)
            ctx.check(np.array_equal(np.array(first, dtype=float), keep) and np.allclose(np.array(second, dtype=float), alone[B], rtol=1e-14), "calls:%s:%s" % (A[0][0], B[0][0]),
                      "a call changes the result of another")
            second[0, 0] = 77.0
            ctx.check(np.allclose(np.array(FUN[B[0][0]](pts[B[1]], *B[0][1]), dtype=float), alone[B], rtol=1e-14), "calls:buffer:%s" % B[0][0], "the returned array is shared between calls")
            ctx.trace()
        return
    kind = case["kind"]
    f = FUN[kind]
    rads = (0.3, 0.8, 0.97, 1.03, 1.2, 1.7, 2.5, 5.0, 40.0, 1e5) if ctx.tier == "quick" else (0.1, 0.3, 0.5, 0.8, 0.9, 0.97, 1.001, 1.03, 1.1, 1.2, 1.7, 2.5, 5.0, 12., 40.0, 1e5)
    ths = (1e-4, 0.2, 0.8, 1.3, np.pi / 2, 1.9, 2.7, 3.1, -0.4) if ctx.tier == "quick" else (1e-6, 1e-4, 0.2, 0.5, 0.8, 1.1, 1.3, np.pi / 2, 1.9, 2.2, 2.7, 3., 3.1, -0.4, -2.)
    for prm in case["prms"]:
        a, Q = (tuple(prm) + (0, 0))[:2]
        rp = 1 + np.sqrt(max(0.0, 1 - a * a - Q * Q))
        for x, th in itertools.product(rads, ths):
            r = rp * x
            # reference: inverse of the covariant line element of mc.knref (signature turned)
            R_ = knref.Ref(1, a, Q, r, th, si=False)
            want = -knref.farr(R_.ginv)
            D = r * r - 2 * r + a * a + Q * Q
            cond = 1 + (r * r + 2 * r + 1) / abs(D)
            s = abs(np.sin(th))
            size = np.array([1.0, 1.0, 1 / r, 1 / (r * s)])
            S = np.outer(size, size) * cond
            cth = 1 + 1e-3 / s
            for cont in ("array", "list", "dual"):
                q = [0.7, r, th, -2.0]
                q = np.array(q) if cont == "array" else q if cont == "list" else [DualNumber(v, 0.0) for v in q]
                g = f(q, *prm)
                ctx.step()
                key = "%s:%s:%s" % (label(kind, prm), "in" if x < 1 else "out", cont)
                ctx.state(label(kind, prm), round(x, 5), round(th, 6), cont)
                try:
                    gv = np.array([[e.val if isinstance(e, DualNumber) else float(e) for e in row] for row in g])
                except TypeError as e:
                    ctx.check(False, key + ":type", repr(e))
                    continue
                err = np.max(abs(gv - want) / S)
                ctx.outcome(np.round(gv / S, 6).tobytes())
                ctx.check(err < 1e-10 * cth * cond, key, lambda: "%s at r=%.6g th=%.4g: %s, expected %s" % (label(kind, prm), r, th, gv.tolist(), want.tolist()))
                if cont == "dual":
                    ctx.check(all(e.deriv == 0 for e in g.ravel() if isinstance(e, DualNumber)), key + ":deriv", "derivatives appear from nothing")
                ctx.check(np.allclose(gv, gv.T, rtol=1e-14), key + ":sym", "not symmetric")
            ctx.trace()
    # whole numbers as coordinates
    for r in (3, 4, 10):
        g = np.array(f([0, r, 1, 0], *case["prms"][0]), dtype=float)
        g2 = np.array(f([0., float(r), 1., 0.], *case["prms"][0]), dtype=float)
        g3 = np.array(f(np.array([0, r, 1, 0]), *case["prms"][0]), dtype=float)
        ctx.step(3)
        ctx.check(np.allclose(g, g2, rtol=1e-13) and np.allclose(g3, g2, rtol=1e-13), label(kind, case["prms"][0]) + ":integers", "integer coordinates give other values: %s" % g.tolist())
