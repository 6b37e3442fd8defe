"""The black hole that plotters draw: every spin x plotter x dimension x options."""
import itertools
from mc.figs import *

PID = "C37"
LEVEL = "model_checking"
BOUND = {"quick": "25 spins in [-1, 1] x static/interactive x 3D/2D/animation x with and without ergosphere x 3 colour pairs x 9 planes, after 0-2 other drawings by the same plotter; every vertex of the drawn "
                  "surfaces is compared", "thorough": "201 spins"}
ASSUMPTIONS = ["Contents are read back from the matplotlib and plotly objects (version installed here); rendering itself is trusted."]
SP = sorted({0.0, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 0.98, 0.998, 0.9999, 1.0, 0.333, -0.1, -0.5, -0.9, -1.0, 0.05, 0.4, 0.7, 0.8, 0.95, 0.99, 1e-3, 1e-9, -0.75})
COL = [("#000", "#FFC"), ("#123456", "#abcdef"), ("#ff0000", "#00ff00")]
_S = {}


def warm():
    quiet(lambda: StaticGeodesicPlotter().plot2D(spin(0.1)))
    plt.close("all")


def spins(tier):
    return SP if tier == "quick" else [round(-1 + 0.01 * i, 2) for i in range(201)]


def cases(tier):
    s = spins(tier)
    return [dict(name="spin:%s:%d" % (k, i), k=k, i=i) for k in ("static", "interactive") for i in range(8)] + [dict(name="charge", charge=1)] + [dict(name="sequence:%s" % k, seq=k) for k in ("static", "interactive")]


def drawn(p, dim, inter):
    """label -> (points, colour)"""
    if not inter:
        return {k: v[-1] for k, v in mpl_bodies(p.ax).items()}
    out = {}
    for t in p.fig.data:
        if t.type == "surface":
            out[t.name] = (ply_trace(t), to_rgb(t.colorscale[0][1]) if t.colorscale[0][1] == t.colorscale[-1][1] else None)
        elif t.type == "scatter" and t.fillcolor is not None:
            out[t.name] = (np.stack(ply_trace(t), axis=1), to_rgb(t.fillcolor))
    return out


def hue(got, c, shaded):
    """matplotlib shades surfaces: any darker shade of the colour"""
    got, c = np.array(got, dtype=float), np.array(to_rgb(c))
    if not shaded or not c.any():
        return np.allclose(got, c, atol=1 / 300)
    k = got @ c / (c @ c)
    return 0.2 < k <= 1.01 and np.allclose(got, k * c, atol=1 / 200)


def rad(v):
    return np.sqrt((v ** 2).sum(1))


def shape(ctx, key, b, a, dim, ergo, col):
    want = {HORIZON, ERGO} if ergo else {HORIZON}
    if not ctx.check(set(b) == want, key + ":bodies", lambda: "%s: draws %s, expected %s" % (key, sorted(b), sorted(want))):
        return
    for lab, c in ((HORIZON, col[0]), (ERGO, col[1])):
        if lab not in b:
            continue
        v, got = b[lab]
        r = rad(v)
        cth = v[:, -1] / r
        want = np.full(len(v), 1 + np.sqrt(1 - a * a)) if lab == HORIZON else 1 + np.sqrt(1 - (a * cth) ** 2)
        ctx.check(np.allclose(r, want, rtol=1e-9), key + ":" + lab, lambda: "%s: %s of spin %g has radii %.6g..%.6g, expected %.6g..%.6g" % (key, lab, a, r.min(), r.max(), want.min(), want.max()))
        # the whole surface / outline is there: all directions, closed
        if dim == 3:
            az = np.sort(np.arctan2(v[:, 1], v[:, 0])[r * np.sqrt(1 - cth ** 2) > 1e-6])
            ctx.check(cth.min() < -0.99 and cth.max() > 0.99 and np.max(np.diff(np.sort(cth))) < 0.12 and np.max(np.diff(az)) < 0.3 and az[0] < -3 and az[-1] > 3, key + ":closed:" + lab, "%s: %s is not a closed surface" % (key, lab))
            # no lopsided sampling: every octant is covered
            ctx.check(len({tuple(x) for x in np.sign(np.round(v, 9)).astype(int).tolist() if 0 not in x}) == 8, key + ":octants:" + lab, "%s: %s misses an octant" % (key, lab))
        else:
            an = np.sort(np.arctan2(v[:, 1], v[:, 0]))
            ctx.check(np.max(np.diff(an)) < 0.3 and an[0] < -2.8 and an[-1] > 2.8 and np.allclose(v[0], v[-1], atol=1e-9), key + ":closed:" + lab, "%s: outline of %s is not closed" % (key, lab))
        ctx.check(got is not None and hue(got, c, dim == 3 and "static" in key), key + ":color:" + lab, lambda: "%s: %s has colour %s, expected %s" % (key, lab, got, c))
    if ergo:
        ctx.check(rad(b[ERGO][0]).max() >= rad(b[HORIZON][0]).max() - 1e-9, key + ":inside", "%s: the ergosphere lies inside the horizon" % key)
    ctx.outcome(round(float(rad(b[HORIZON][0]).max()), 4))


def run_case(case, ctx):
    try:
        quiet(_run, case, ctx)
    finally:
        plt.close("all")


def new(inter, col, ergo):
    return (InteractiveGeodesicPlotter if inter else StaticGeodesicPlotter)(bh_colors=col, draw_ergosphere=ergo)


def _run(case, ctx):
    if "k" in case:
        inter = case["k"] == "interactive"
        for a in spins(ctx.tier)[case["i"]::8]:
            g = spin(a)
            for ergo, col in itertools.product((True, False), COL):
                for dim in (3, 2) if inter else (3, 2, 4):
                    if dim == 4 and col is not COL[1]:
                        continue
                    p = new(inter, col, ergo)
                    {3: p.plot, 2: p.plot2D, 4: getattr(p, "animate", None)}[dim](g)
                    ctx.step()
                    key = "%s:%g:%d:%s:%s" % (case["k"], a, dim, ergo, col[0])
                    ctx.state(key)
                    shape(ctx, key, drawn(p, dim, inter), a, 2 if dim == 2 else 3, ergo, col)
                    ctx.trace()
                    plt.close("all")
            for A, B in itertools.product((1, 2, 3), repeat=2):
                p = new(inter, COL[0], True)
                p.plot2D(g, coordinates=(A, B))
                ctx.step()
                key = "%s:%g:plane%d%d" % (case["k"], a, A, B)
                ctx.state(key)
                shape(ctx, key, drawn(p, 2, inter), a, 2, True, COL[0])
                ctx.trace()
                plt.close("all")
        return
    if "seq" in case:
        # the hole belongs to the geodesic of the last call, not to earlier ones
        inter = case["seq"] == "interactive"
        gs = [spin(a) for a in (0.0, 0.7, 1.0)]
        ops = [(d, i) for d in (3, 2, 0) for i in range(3)]
        for word in itertools.product(ops, repeat=2):
            p = new(inter, COL[1], True)
            for n, (d, i) in enumerate(word):
                {3: p.plot, 2: p.plot2D, 0: p.parametric_plot}[d](gs[i])
                ctx.step()
                ctx.state(word[:n + 1])
                key = "seq:%s" % case["seq"]  # "static" / "interactive"
                if d == 0:
                    if not inter:
                        ctx.check(not mpl_bodies(p.ax), key + ":none", "a parametric plot draws a black hole")
                    continue
                if inter:
                    q = [t for t in p.fig.data if t.name in (HORIZON, ERGO)][-2:]
                    b = {t.name: (ply_trace(t) if t.type == "surface" else np.stack(ply_trace(t), axis=1), to_rgb(t.colorscale[0][1] if t.type == "surface" else t.fillcolor)) for t in q}
                else:
                    b = drawn(p, d, False)
                shape(ctx, key + ":%d:%d" % (d, i), b, (0.0, 0.7, 1.0)[i], d, True, COL[1])
            ctx.trace()
            plt.close("all")
        return
    # a charged hole: outer horizon 1 + sqrt(1 - a^2 - Q^2), ergosphere 1 + sqrt(1 - Q^2 - a^2 cos^2)
    for a, Q in ((0.6, 0.3), (0.0, 0.8), (0.9, 0.1), (0.3, -0.5), (0.6, 0.0), (0.0, 0.0)):
        g = Timelike(metric="KerrNewman", metric_params=(a, Q), position=[9., 1.6, 0.], momentum=[0., 0., 3.], steps=2, suppress_warnings=True)
        for inter, dim in itertools.product((False, True), (2, 3)):
            p = new(inter, COL[0], True)
            (p.plot if dim == 3 else p.plot2D)(g)
            ctx.step()
            b = drawn(p, dim, inter)
            ctx.state("charge", a, Q, inter, dim)
            if not ctx.check(set(b) == {HORIZON, ERGO}, "charge:bodies", "charged hole: draws %s" % sorted(b)):
                continue
            r, e = rad(b[HORIZON][0]), rad(b[ERGO][0])
            ct = b[ERGO][0][:, -1] / e
            good = np.allclose(r, 1 + np.sqrt(1 - a * a - Q * Q), rtol=1e-9) and np.allclose(e, 1 + np.sqrt(1 - Q * Q - (a * ct) ** 2), rtol=1e-9)
            ignored = Q != 0 and np.allclose(r, 1 + np.sqrt(1 - a * a), rtol=1e-9) and np.allclose(e, 1 + np.sqrt(1 - (a * ct) ** 2), rtol=1e-9)
            ctx.check(good, "charge-ignored" if ignored else "charge:%g:%g:%s:%d" % (a, Q, inter, dim), lambda: "hole of spin %g and charge %g drawn with horizon radius %.6g, ergosphere up to %.6g" % (a, Q, r.max(), e.max()))
            ctx.trace()
            plt.close("all")
