"""Electromagnetic field of Kerr-Newman and the Lorentz force on a charged particle."""
import itertools
import numpy as np
from mc import knref
from mc.num import *

PID = "C19"
LEVEL = "model_checking"
BOUND = {"quick": "3 masses x 4 spins x charges (0,+,-) x 5 radii x 6 polar angles (and angles outside 0..pi); force: x particle charges (0,+,-) x 12 velocities",
         "thorough": "4 masses, 8 radii, 27 velocities"}
ASSUMPTIONS = ["field components agree with the exterior derivative of the potential to 1e-8 of their natural size",
               "the force is compared with the code's own contravariant field (its overall scale, pinned by an existing test, is a unit convention)"]


def cases(tier):
    out = []
    for n, k, M, a, Q in family():
        if k == "kn" and (tier == "thorough" or n.split(":")[1] != "stellar"):
            out.append(dict(name=n, M=M, a=a, Q=Q))
    return out


def run_case(case, ctx):
    M, a, Q = (case[k] for k in ("M", "a", "Q"))
    g = make("kn", M, a, Q)
    rs = float(2 * knref.Ref(M, a, Q, 1, 1).m)
    c = float(knref.C)
    mirror = make("kn", M, a, -Q)
    pts = [np.array([0., x * rs, th, 0.4]) for x, th in ((1.6, 0.7), (3.0, 2.0), (1.6, np.pi - 0.7))]
    owned(ctx, case["name"], [(n, lambda n=n, p=p: getattr(g, n)(p)) for p in pts for n in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant")])
    R = (1.1, 1.6, 3.0, 50.0, 1e5) + ((1.3, 10.0, 1e7) if ctx.tier == "thorough" else ())
    for x, th in list(itertools.product(R, (0.05, 0.7, np.pi / 2, 2.0, 2.9, np.pi / 4))) + BEYOND[3:]:
        r = x * rs
        ref = knref.Ref(M, a, Q, r, th)
        rq = float(abs(ref.rq)) + 1e-30
        key = "%s:r%g:th%.3g" % (case["name"], x, th)
        xs = np.array([3.0, r, th, 0.2])
        keep = xs.copy()
        ctx.state(key)
        al, S = float(ref.al), r * r + float(ref.al) ** 2 * np.cos(th) ** 2
        cond = max(1.0, float(r * r / abs(ref.r ** 2 - 2 * ref.m * ref.r + ref.al ** 2 + ref.rq ** 2)))
        # potential
        A = g.em_potential_covariant(xs)
        wA = np.array([float(v) for v in ref.A])
        nA = rq / r * np.array([1.0, 1e-3, 1e-3, max(al * np.sin(th) ** 2, 1e-3)])
        ctx.step()
        ctx.check(A.shape == (4,) and np.all(abs(A - wA) <= 1e-9 * nA), key + ":A", lambda: "%s: A = %s, expected %s" % (key, A, wA))
        gi = knref.farr(ref.ginv)
        Au = g.em_potential_contravariant(xs)
        ctx.step()
        ctx.check(np.all(abs(Au - gi @ wA) <= 1e-7 * cond * (abs(gi) @ abs(wA) + 1e-30)), key + ":Aup", lambda: "%s: A^mu = %s, expected %s" % (key, Au, gi @ wA))
        # field = dA
        F = g.em_tensor_covariant(xs)
        ctx.step()
        wF = np.array([[float(v) for v in row] for row in ref.F])
        ctx.outcome(np.round(F / (rq / r ** 2), 6).tobytes())
        ctx.check(F.shape == (4, 4) and np.array_equal(F, -F.T), key + ":antisymmetric", key + ": field tensor is not antisymmetric")
        sF = np.full((4, 4), rq / r ** 2)
        sF[2, :] *= r
        sF[:, 2] *= r
        sF[3, :] *= r
        sF[:, 3] *= r
        sF = np.maximum(sF * 1e-3, abs(wF))
        for i, j in itertools.combinations(range(4), 2):
            if (i, j) in ((1, 3), (2, 3)) and abs(wF[i, j]) > 1e-7 * sF[i, j] and abs(F[i, j] + wF[i, j]) <= 1e-8 * sF[i, j]:
                ctx.check(False, "F%d%d-opposite-sign" % (i, j), "F[%d,%d] has the opposite sign of d_%d A_%d - d_%d A_%d" % (i, j, i, j, j, i))
                continue
            ctx.check(abs(F[i, j] - wF[i, j]) <= 1e-8 * sF[i, j], key + ":F%d%d" % (i, j), lambda: "%s: F[%d,%d] = %r, dA gives %r" % (key, i, j, F[i, j], wF[i, j]))
        Fu = g.em_tensor_contravariant(xs)
        ctx.step()
        wFu = gi @ F @ gi.T
        sFu = abs(gi) @ abs(F) @ abs(gi) + 1e-300
        ctx.check(np.all(abs(Fu - wFu) <= 1e-7 * cond * cond * sFu), key + ":Fup", key + ": F^mu^nu is not F_mu_nu with both indices raised")
        # whole numbers are numbers, in any container
        ri = max(int(r), 1)
        wr = knref.Ref(M, a, Q, ri, 2)
        wAi, wFi = np.array([float(v) for v in wr.A]), np.array([[float(v) for v in row] for row in wr.F])
        for form in (np.array([0, ri, 2, 1]), [0, ri, 2, 1], (0., float(ri), 2., 1.)):
            Ai, Fi = g.em_potential_covariant(form), g.em_tensor_covariant(form)
            Aui, Fui = g.em_potential_contravariant(form), g.em_tensor_contravariant(form)
            fl = np.array([0., ri, 2., 1.])
            ctx.step(4)
            ctx.check(np.allclose(Ai, wAi, rtol=1e-7, atol=1e-12 * rq / ri) and np.allclose(abs(Fi), abs(wFi), rtol=1e-6, atol=1e-9 * np.max(abs(wFi))) and
                      np.allclose(Aui, g.em_potential_contravariant(fl), rtol=1e-7, atol=0) and np.allclose(Fui, g.em_tensor_contravariant(fl), rtol=1e-7, atol=0),
                      key + ":int", lambda: "%s: field at the integer position %r (%s): %s %s, expected %s %s" % (key, form, type(form).__name__, Ai, Fi, wAi, wFi))
        # odd in the charge
        ctx.check(np.allclose(mirror.em_potential_covariant(xs), -A, rtol=1e-12, atol=0) and np.allclose(mirror.em_tensor_covariant(xs), -F, rtol=1e-12, atol=0),
                  key + ":odd", key + ": field does not change sign with the charge")
        ctx.step(2)
        # force
        G3 = np.array([[[float(v) for v in row] for row in m] for m in ref.gamma])
        gm = knref.farr(ref.g)
        U = units4(r, c)
        vels = list(itertools.product((0, 1, -1), repeat=3))
        if ctx.tier != "thorough":
            vels = vels[::2] if x < 2 else vels[:4]
        # particle charges for which the force is comparable with gravity
        q0, part = 1.0, {}
        for s in vels:
            u4 = np.array([1.5, s[0] * 0.3 * c, s[1] * 0.2 * c / r, s[2] * 0.2 * c / r / max(abs(np.sin(th)), 0.05)])
            low = gm @ u4
            lor = Fu @ low
            slor = abs(Fu) @ (abs(gm) @ abs(u4))
            geo = -np.einsum("ikl,k,l->i", G3, u4, u4)
            sgeo = np.einsum("ikl,k,l->i", abs(G3), abs(u4), abs(u4)) * cond + 1e-9 * U * (c / r) ** 2
            if Q and not part:
                q0 = float(np.max(abs(geo) / np.where(slor > 0, slor, np.inf))) or 1.0
            for qm in (0.0, 1.0, -1.0, 2.5):
                p = part.get(qm * q0) or part.setdefault(qm * q0, make("kn", M, a, Q, q=qm * q0))
                vec = np.concatenate((xs, u4))
                got = p.f_vec(0.0, vec)
                ctx.step()
                k2 = "%s:u%s:q%g" % (key, s, qm)
                ctx.state(k2)
                want = geo + qm * q0 * lor
                sc = sgeo + abs(qm) * q0 * slor * cond
                ctx.check(np.array_equal(got[:4], u4), k2 + ":velocity", k2 + ": first half is not the velocity")
                ctx.check(np.all(abs(got[4:] - want) <= 1e-6 * sc), k2, lambda: "%s: acceleration %s, expected -Gamma u u + q F^mu_nu u^nu = %s" % (k2, got[4:], want))
                em = got[4:] - geo
                ctx.check(abs(low @ em) <= 1e-6 * (abs(low) @ sc), k2 + ":norm", k2 + ": the force changes the norm of the 4-velocity")
                if s == (0, 0, 0) and Q and qm:
                    ctx.check(em[1] * qm * Q > 0, k2 + ":sign", k2 + ": like charges do not repel")
                ctx.trace()
        ctx.check(np.array_equal(xs, keep), key + ":pure", key + ": the position passed in was changed")
