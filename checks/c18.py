"""f_vec of the numerical metrics: the geodesic equation, for every combination of velocity components."""
import itertools
import numpy as np
from mc import knref
from mc.num import *
from checks.c16 import near_horizon

PID = "C18"
LEVEL = "model_checking"
BOUND = {"quick": "3 masses x 4 spins x 3 charges x 6 radii x 6 polar angles (and angles outside 0..pi) x all 3^3 sign patterns (0,+,-) of the spatial velocity x time components (0, +), states of floats and of integers in arrays, lists and tuples",
         "thorough": "4 masses and 9 radii"}
ASSUMPTIONS = ["accelerations agree with -Gamma u u (40 digits) to 1e-7 of the sum of the absolute values of its terms, relaxed near the horizon"]
BIG = ("sun", "smbh", "earth")


def cases(tier):
    fam = [f for f in family() if tier == "thorough" or f[0].split(":")[1] in BIG]
    return [dict(name=n, kind=k, M=M, a=a, Q=Q) for n, k, M, a, Q in fam]


def run_case(case, ctx):
    kind, M, a, Q = (case[k] for k in ("kind", "M", "a", "Q"))
    g = make(kind, M, a, Q)
    rs = float(2 * knref.Ref(M, a, Q, 1, 1).m)
    c = float(knref.C)
    owned(ctx, case["name"], [("f_vec", lambda p=np.array([0., x * rs, th, 0.4, 1.5, s * 0.2 * c, 0.1 * c / (x * rs), 0.2 * c / (x * rs)]): g.f_vec(0.0, p)) for x, th, s in ((1.6, 0.7, 1), (3.0, 2.0, -1), (1.6, np.pi - 0.7, 1))])
    R = (1.1, 1.6, 3.0, 7.0, 50.0, 1e5) + ((1.3, 20.0, 1e7) if ctx.tier == "thorough" else ())
    for x, th in list(itertools.product(R, (0.05, 0.7, np.pi / 2, 2.0, 2.9, np.pi / 4))) + [(1.6, -0.8), (3.0, 4.0)]:
        r = x * rs
        ref = knref.Ref(M, a, Q, r, th)
        G3 = np.array([[[float(v) for v in row] for row in m] for m in ref.gamma])
        A3 = np.abs(G3)
        U = units4(r, c)
        cond = max(1.0, float(r * r / abs(ref.r ** 2 - 2 * ref.m * ref.r + ref.al ** 2 + ref.rq ** 2)))
        v = 0.3 * c
        ints = {}
        wr = knref.Ref(M, a, Q, max(int(r), 1), 2)
        ints[max(int(r), 1)] = (np.array([[[float(q) for q in row] for row in m] for m in wr.gamma]), near_horizon(wr))
        for s in itertools.product((0, 1, -1), repeat=3):
            for ut in (0.0, 1.7 if s[0] >= 0 else -1.7):
                u4 = np.array([ut, s[0] * v, s[1] * v / r * 0.8, s[2] * v / r * 1.3 / max(abs(np.sin(th)), 0.05)])
                want = -np.einsum("ikl,k,l->i", G3, u4, u4)
                scale = np.einsum("ikl,k,l->i", A3, abs(u4), abs(u4)) * cond + 1e-9 * U * (c / r) ** 2
                vec = np.concatenate(([5.0, r, th, 0.4] if s[2] >= 0 else [-5.0, r, th, -2.4], u4))
                keep = vec.copy()
                key = "%s:r%g:th%.3g:u%s%s" % (case["name"], x, th, "t" if ut else "0", s)
                first = None
                for lam in (0.0, 17.3):
                    got = g.f_vec(lam, vec)
                    ctx.step()
                    ctx.state(key, lam)
                    ctx.outcome(np.round(np.asarray(got[4:], dtype=float) / (U * (c / r) ** 2), 6).tobytes())
                    ctx.check(np.array_equal(got[:4], u4), key + ":velocity", lambda: "%s: dx/dlambda = %s, velocity %s" % (key, got[:4], u4))
                    d = np.abs(got[4:] - want)
                    ctx.check(np.all(d <= 1e-7 * scale), key, lambda: "%s: acceleration %s, geodesic equation %s" % (key, got[4:], want))
                    first = got if first is None else first
                    ctx.check(np.array_equal(got, first), key + ":lambda", key + ": depends on the parameter or on earlier calls")
                if s[1] >= 0 and ut:         # whole numbers are numbers, in any container
                    ri = max(int(r), 1)
                    iv = [5, ri, 2, 0, 2, int(s[0] * v), int(s[1]), 3 * int(s[2])]
                    G2, n2 = ints[ri]
                    u2 = np.array(iv[4:], dtype=float)
                    wi = -np.einsum("ikl,k,l->i", G2, u2, u2)
                    si = (np.einsum("ikl,k,l->i", abs(G2), abs(u2), abs(u2)) + 1e-9 * units4(ri, c) * max(abs(u2) / units4(ri, c)) ** 2) * n2
                    for form in (np.array(iv), iv, tuple(iv), np.array(iv, dtype=float)):
                        gi = g.f_vec(0, form)
                        ctx.step()
                        ctx.check(np.array_equal(np.asarray(gi[:4], dtype=float), u2) and np.all(abs(np.asarray(gi[4:], dtype=float) - wi) <= 1e-7 * si), key + ":int",
                                  lambda: "%s: state %r (%s): %s, geodesic equation %s" % (key, iv, type(form).__name__, gi, wi))
                ctx.check(np.array_equal(vec, keep), key + ":pure", key + ": the state passed in was changed")
                # norm, energy and angular momentum are constants of the motion: their rates along f_vec vanish
                gm = knref.farr(ref.g)
                dg = np.array([[[float(q) for q in row] for row in m] for m in ref.dg])
                acc = got[4:]
                rate_n = np.einsum("kij,k,i,j", dg, u4, u4, u4) + 2 * u4 @ gm @ acc
                sc_n = np.einsum("kij,k,i,j", abs(dg), abs(u4), abs(u4), abs(u4)) + 2 * abs(u4) @ abs(gm) @ abs(acc)
                ctx.check(abs(rate_n) <= 1e-7 * cond * sc_n, key + ":norm", key + ": norm of the 4-velocity is not conserved")
                for i, nm in ((0, "energy"), (3, "angular momentum")):
                    rate = np.einsum("kj,k,j", dg[:, i, :], u4, u4) + gm[i] @ acc
                    sc = np.einsum("kj,k,j", abs(dg[:, i, :]), abs(u4), abs(u4)) + abs(gm[i]) @ (scale / cond)
                    ctx.check(abs(rate) <= 1e-7 * cond * sc, key + ":" + nm, lambda: "%s: %s is not conserved" % (key, nm))
                ctx.trace()
