"""Christoffel symbols and metric derivatives of the numerical metrics."""
import itertools
import numpy as np
from mc import knref
from mc.num import *
from checks.c16 import near_horizon

PID = "C17"
LEVEL = "model_checking"
BOUND = {"quick": "4 masses x 4 spins x 4 charges x 13 radii x 7 polar angles (and 9 points with angles outside 0..pi), all 64 symbols, shared object queried in two orders and a fresh object, positions as float arrays, integer arrays, lists and tuples of integers",
         "thorough": "19 radii, 13 angles"}
ASSUMPTIONS = ["symbols agree with the Levi-Civita connection of the line element (40 digits) to 1e-7 of their natural size, relaxed near the horizon"]


def cases(tier):
    return [dict(name=n, kind=k, M=M, a=a, Q=Q) for n, k, M, a, Q in family()]


def grid(tier):
    R = INNER + (1.05, 1.2, 1.5, 2.0, 3.0, 10.0, 1e4, 1e8) + ((0.1, 0.65, 1.1, 5.0, 100.0, 1e6) if tier == "thorough" else ())
    T = THETAS + ((0.01, 0.9, 1.5, 2.0, 3.0, np.pi / 3) if tier == "thorough" else ())
    return list(itertools.product(R, T)) + BEYOND


def run_case(case, ctx):
    kind, M, a, Q = (case[k] for k in ("kind", "M", "a", "Q"))
    g = make(kind, M, a, Q)
    rs = float(2 * knref.Ref(M, a, Q, 1, 1).m)
    c = float(knref.C)
    own = [np.array([0., x * rs, th, 0.4]) for x, th in ((1.6, 0.7), (3.0, 2.0), (1.6, np.pi - 0.7))]
    owned(ctx, case["name"], [("christoffels", lambda p=p: g.christoffels(p)) for p in own])
    if hasattr(g, "nonzero_christoffels") and callable(getattr(g, "nonzero_christoffels")):
        nz = set(map(tuple, g.nonzero_christoffels()))
    else:
        nz = set(map(tuple, getattr(g, "_nonzero_christoffels_list_bl", ()))) or None
    pts = grid(ctx.tier)
    seen_nz = set()
    buf = np.zeros(4)
    for rep, order in enumerate((pts, pts[::-1])):
        for x, th in order:
            r = x * rs
            ref = knref.Ref(M, a, Q, r, th)
            cond = near_horizon(ref)
            if cond > 1e3:
                continue
            want = np.array([[[float(v) for v in row] for row in m] for m in ref.gamma])
            U = units4(r, c)
            nat = U[:, None, None] / (U[None, :, None] * U[None, None, :])
            scale = (nat + np.abs(want)) * cond
            key = "%s:r%g:th%.4g" % (case["name"], x, th)
            obj = g if rep == 0 or x == 3.0 else make(kind, M, a, Q)
            buf[:] = [1.0, r, th, 0.3] if rep == 0 else [-2.0, r, th, -0.8]     # one array, overwritten between calls
            xs = buf
            keep = xs.copy()
            for nm, fn in (("christoffels", obj.christoffels),):
                got = fn(xs)
                ctx.step()
                ctx.state(key, rep)
                ctx.outcome(np.round(got / nat, 7).tobytes())
                e = rel(got, want, scale)
                i = np.unravel_index(np.argmax(np.abs(got - want) / scale), (4, 4, 4)) if got.shape == (4, 4, 4) else None
                ctx.check(e < 1e-7, key + ":" + nm, lambda: "Gamma%s at %s is %r, Levi-Civita %r" % (i, key, got[i], want[i]))
                # small symbols: the ones smaller than natural size still have to be right to a few digits where they can be resolved
                m = np.abs(want) > 1e-6 * nat
                ctx.check(np.all(np.abs(got - want)[m] < 1e-5 * cond * np.abs(want)[m]), key + ":small", key + ": a small symbol is wrong")
                bad = [i for i in np.ndindex(4, 4, 4) if sorted(i[1:]) != [2, 3] and
                       not abs(got[i] - want[i]) <= (1e-7 + 1e-13 * x) * cond * abs(want[i]) + 1e-13 * nat[i] * (1 + 1 / x)]
                ctx.check(not bad, key + ":far", lambda: "%s: Gamma%s is %r, Levi-Civita %r" % (key, bad[0], got[bad[0]], want[bad[0]]))
                ctx.check(np.allclose(got, np.transpose(got, (0, 2, 1)), rtol=1e-12, atol=0), key + ":symmetric", key + ": not symmetric in the lower indices")
                for q in np.argwhere(np.abs(want) > 1e-9 * nat):
                    seen_nz.add(tuple(int(v) for v in q))
            ctx.check(np.array_equal(xs, keep), key + ":pure", key + ": the position passed in was changed")
            if hasattr(obj, "_dg_dx_bl"):
                d = obj._dg_dx_bl(xs)
                ctx.step()
                wd = np.array([[[float(v) for v in row] for row in m] for m in ref.dg])
                nd = (1 / (U[:, None, None] * U[None, :, None] * U[None, None, :])) * r * r
                nd[:, 1, 1] *= cond ** 2
                if x < 1.01:
                    nd = np.maximum(nd, np.abs(wd))
                # d_theta g carries at most one sine, d_r g_phi two
                sd = nd * np.ones((4, 4, 4))
                e = rel(d, wd, sd)
                ctx.check(e < 1e-8 * cond, key + ":dgdx", lambda: "derivatives of the metric at %s differ by %.3g" % (key, e))
            # metric compatibility of the code's own symbols with the code's own metric
            gm = obj.metric_covariant(xs)
            wd = np.array([[[float(v) for v in row] for row in m] for m in ref.dg])
            nab = wd - np.einsum("ski,sj->kij", got, gm) - np.einsum("skj,is->kij", got, gm)
            nd = (1 / (U[:, None, None] * U[None, :, None] * U[None, None, :])) * r * r * cond ** 2
            if x < 1.01:
                nd = np.maximum(nd, (np.abs(wd) + np.einsum("ski,sj->kij", np.abs(got), np.abs(gm)) + np.einsum("skj,is->kij", np.abs(got), np.abs(gm))) * cond)
            ctx.check(rel(nab, 0 * nab, nd) < 1e-6, key + ":compat", key + ": covariant derivative of the metric does not vanish")
            if rep and x >= 1.5:        # whole numbers are numbers
                ri = max(int(r), 1)
                wr = knref.Ref(M, a, Q, ri, 2)
                wint, n2 = np.array([[[float(v) for v in row] for row in m] for m in wr.gamma]), near_horizon(wr)
                Ui = units4(ri, c)
                ni = Ui[:, None, None] / (Ui[None, :, None] * Ui[None, None, :]) + np.abs(wint)
                for form in (np.array([0, ri, 2, 1]), [0, ri, 2, 1], (0, ri, 2, 1)):
                    gint = obj.christoffels(form)
                    ctx.step()
                    ctx.check(rel(gint, wint, ni * n2) < 1e-7, key + ":int", lambda: "%s: wrong symbols for the integer position %r" % (key, form))
                    mm = np.abs(wint) > 1e-6 * ni
                    ctx.check(np.all(np.abs(gint - wint)[mm] < 1e-5 * n2 * np.abs(wint)[mm]), key + ":int-small", lambda: "%s: a small symbol is wrong for %r" % (key, form))
            # a point closer than anything one would round away is still another point; what was returned belongs to the caller
            got[...] = np.nan
            buf[2] = th + 7e-7
            nxt = obj.christoffels(buf)
            ctx.step()
            w2 = np.array([[[float(v) for v in row] for row in m] for m in knref.Ref(M, a, Q, r, th + 7e-7).gamma])
            ctx.check(rel(nxt, w2, scale) < 2e-8, key + ":next", key + ": wrong symbols 7e-7 rad further on")
            ctx.trace()
    if nz is not None:
        ctx.check(seen_nz <= nz, case["name"] + ":nonzero-list", lambda: "the list of non-zero symbols misses %s" % sorted(seen_nz - nz))
