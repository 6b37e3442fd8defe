"""Plotters: the figure after every word of calls on two live plotters equals the figure of the model."""
import builtins
import itertools
import os
import shutil
import tempfile
from mc.figs import *

PID = "C36"
LEVEL = "model_checking"
BOUND = {"quick": "4 geodesics; static plotter: every word of <= 2 calls over 10 operations on two live plotters, interactive: every word of <= 3 calls over 11 operations; all 9 coordinate pairs and 40 "
                  "invalid pairs; all aspects, titles, colours, sizes; every animation frame; view angles; trajectories of 1, 2, 101, 513, 1203 and 4099 rows; saved files of two plotters in both orders; 5 shells",
         "thorough": "static words of <= 3 calls, interactive words of <= 4 calls"}
ASSUMPTIONS = ["Contents are read back from the matplotlib and plotly objects (version installed here); rendering itself is trusted."]
BAD = [(0, 1), (1, 4), (-1, 2), (4, 4), (1, 0), (7, 1), (2, -3), (6, 5), ("1", 2), (None, 1)]
ASP = {"static": ["auto", "equal", "equalxy", "equalyz", "equalxz"], "interactive": ["auto", "data", "manual", "cube"]}
C3 = ("#102030", "#a0b0c0", "#0f1e2d")
OPS = ["plot0", "plot1", "plot2", "p12", "p31", "par0", "par3", "bad", "badaspect", "clear"]
LONG = (1, 2, 101, 513, 1203, 4099)
_G = []


class Long:
    """stands for a geodesic of n rows: what the plotters read of one"""

    def __init__(self, n):
        t = np.zeros((n, 8))
        s = np.arange(n)
        t[:, 0], t[:, 1], t[:, 2], t[:, 3] = s, 5 + 3 * np.cos(s * 0.01), 4 * np.sin(s * 0.013), 0.002 * s
        self.metric_params, self.kind, self.coords, self.trajectory = (0.7,), "Time-like", "Cartesian", (s, t)


def warm():
    _G.extend(geodesics())
    quiet(lambda: StaticGeodesicPlotter().plot2D(_G[0]))
    plt.close("all")


def G(i):
    if not _G:
        warm()
    return _G[i]


def cases(tier):
    out = [dict(name="options:%s:%d" % (k, i), opt=k, g=i) for k in ASP for i in range(4)]
    for k in ASP:
        out += [dict(name="words:%s:%s" % (k, o), words=k, first=o) for o in OPS]
    return out + [dict(name="animate:%d" % i, animate=i) for i in range(4)] + [dict(name="files", files=1), dict(name="shells", shells=1)] + [dict(name="long:%d" % n, long=n) for n in LONG]


# ---- the model: what each call draws
def want_plot(g, color=None, title=None):
    t = g.trajectory[1]
    return dict(kind="3d", lines=[((t[:, 1], t[:, 2], t[:, 3]), g.kind + " Geodesic", color)], bodies=True, title=title)


def want_2d(g, A, B, color=None, title=None):
    t = g.trajectory[1]
    return dict(kind="2d", lines=[((t[:, A], t[:, B]), g.kind + " Geodesic", color)], bodies=True, title=title, labels=("X%d" % A, "X%d" % B))


def want_par(g, colors=("#00FFFF", "#FF00FF", "#FFFF00"), title=None):
    n, t = g.trajectory
    return dict(kind="par", lines=[((np.asarray(n, dtype=float), t[:, i]), "X%d (%s)" % (i, g.coords), colors[i - 1]) for i in (1, 2, 3)], bodies=False, title=title)


def call(p, op, interactive):
    """run one operation; what it should have drawn"""
    if op.startswith("plot"):
        p.plot(G(int(op[4])), title=op)
        return want_plot(G(int(op[4])), title=op)
    if op in ("p12", "p31"):
        A, B = int(op[1]), int(op[2])
        p.plot2D(G(A), coordinates=(A, B), color="#12ab%d4" % A, title=op)
        return want_2d(G(A), A, B, "#12ab%d4" % A, title=op)
    i = int(op[3])
    p.parametric_plot(G(i), title=op)
    return want_par(G(i), title=op)


def line_ok(ctx, key, got, want, interactive):
    data, label, color = want
    gd, gl, gc = got
    ok = len(gd) == len(data) and all(same(a, b) for a, b in zip(gd, data))
    ctx.check(ok, key + ":data", lambda: "%s: draws %s, trajectory is %s" % (key, gd, data))
    ctx.check(gl == label, key + ":label", lambda: "%s: label %r, expected %r" % (key, gl, label))
    if color is not None:
        ctx.check(np.allclose(to_rgb(gc), to_rgb(color), atol=1 / 300), key + ":color", lambda: "%s: colour %r, expected %r" % (key, gc, color))


def static_ok(ctx, key, p, w, ergo=True):
    """the plotter's figure holds exactly what the model says (None: nothing)"""
    ax = mpl_axes(p.fig)
    if w is None:
        return ctx.check(not p.fig.axes, key + ":cleared", lambda: "%s: figure still has %s" % (key, p.fig.axes))
    if not ctx.check(len(ax) == 1 and (ax[0].name == "3d") == (w["kind"] == "3d") and ax[0] is p.ax, key + ":axes", lambda: "%s: axes %s" % (key, ax)):
        return
    ax = ax[0]
    ln = mpl_lines(ax)
    ctx.check(len(ln) == len(w["lines"]), key + ":nlines", lambda: "%s: %d lines drawn" % (key, len(ln)))
    for l, x in zip(ln, w["lines"]):
        line_ok(ctx, key, l[:3], x, False)
    b = mpl_bodies(ax)
    want = ({HORIZON, ERGO} if ergo else {HORIZON}) if w["bodies"] else set()
    ctx.check(set(b) == want and all(len(v) == 1 for v in b.values()), key + ":bodies", lambda: "%s: bodies %s, expected %s" % (key, sorted(b), sorted(want)))
    if w["title"] is not None:
        ctx.check(ax.get_title() == w["title"], key + ":title", lambda: "%s: title %r" % (key, ax.get_title()))
    if "labels" in w:
        ctx.check(w["labels"][0] in ax.get_xlabel() and w["labels"][1] in ax.get_ylabel(), key + ":axis", lambda: "%s: axis labels %r %r" % (key, ax.get_xlabel(), ax.get_ylabel()))


def inter_ok(ctx, key, p, ws, ergo=True):
    data = list(p.fig.data)
    want = []
    for w in ws:
        if w["bodies"]:
            ty = "surface" if w["kind"] == "3d" else "scatter"
            want += [(ty, HORIZON, None)] + ([(ty, ERGO, None)] if ergo else [])
        want += [("scatter3d" if w["kind"] == "3d" else "scatter", x[1], x) for x in w["lines"]]
    ok = ctx.check([(d.type, d.name) for d in data] == [x[:2] for x in want], key + ":traces", lambda: "%s: traces %s, expected %s" % (key, [(d.type, d.name) for d in data], [x[:2] for x in want]))
    if not ok:
        return
    for d, x in zip(data, want):
        if x[2] is not None:
            line_ok(ctx, key, (ply_trace(d), d.name, d.line.color), x[2], True)
    ti = [w["title"] for w in ws if w["title"]]
    if not ws:
        ctx.check(p.fig.layout.to_plotly_json().get("title") in (None, {}), key + ":layout", lambda: "%s: the layout keeps %s" % (key, p.fig.layout))
    elif ti:
        ctx.check(p.fig.layout.title.text == ti[-1], key + ":title", lambda: "%s: title %r, expected %r" % (key, p.fig.layout.title.text, ti[-1]))


def run_case(case, ctx):
    try:
        quiet(_run, case, ctx)
    finally:
        plt.close("all")


def frozen(i):
    t = G(i).trajectory
    return np.array(t[0]).copy(), t[1].copy(), G(i).position.copy(), G(i).momentum.copy(), G(i).metric_params


def untouched(ctx, key, before):
    for i, b in enumerate(before):
        a = frozen(i)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)), key + ":geodesic", "%s: the geodesic was changed" % key)


def _run(case, ctx):
    before = [frozen(i) for i in range(4)]
    if "opt" in case:
        inter = case["opt"] == "interactive"
        g = G(case["g"])
        new = (lambda **k: InteractiveGeodesicPlotter(**k)) if inter else (lambda **k: StaticGeodesicPlotter(**k))
        verify = (lambda key, p, w, e: inter_ok(ctx, key, p, [w] if w else [], e)) if inter else (lambda key, p, w, e: static_ok(ctx, key, p, w, e))
        for ergo in (True, False):
            for asp in ASP[case["opt"]]:
                for color, title in ((None, "A b"), ("#336699", "T")):
                    p = new(draw_ergosphere=ergo)
                    kw = dict(aspect=asp, title=title)
                    if color:
                        kw["color"] = color
                    if not inter:
                        kw["figsize"] = (5, 7)
                    elif asp == "manual":
                        kw["aspect_ratio"] = dict(x=1, y=2, z=3)
                    p.plot(g, **kw)
                    ctx.step()
                    key = "%s:plot:%s:%s:%s" % (case["name"], ergo, asp, color)
                    ctx.state(key)
                    verify(key, p, want_plot(g, color, title), ergo)
                    if inter:
                        sc = p.fig.layout.scene
                        ctx.check(sc.aspectmode == asp and (asp != "manual" or (sc.aspectratio.x, sc.aspectratio.y, sc.aspectratio.z) == (1, 2, 3)), key + ":aspect", lambda: "%s: %s" % (key, sc))
                        ctx.check(p.show() is p.fig, key + ":show", "show() does not return the figure")
                    else:
                        ctx.check(tuple(p.fig.get_size_inches()) == (5, 7), key + ":size", lambda: "%s: size %s" % (key, p.fig.get_size_inches()))
                        ctx.check(p.ax.get_aspect() == asp, key + ":aspect", lambda: "%s: aspect %s" % (key, p.ax.get_aspect()))
                        p.show(azim=12, elev=-34)
                        ctx.check((p.ax.azim, p.ax.elev) == (12, -34), key + ":view", lambda: "%s: view %s %s" % (key, p.ax.azim, p.ax.elev))
                        lg = p.ax.get_legend()
                        ctx.check(lg is not None and {t.get_text() for t in lg.get_texts()} == {g.kind + " Geodesic", HORIZON} | ({ERGO} if ergo else set()), key + ":legend", "%s: legend" % key)
                    ctx.trace()
                    plt.close("all")
            for A, B in itertools.product((1, 2, 3), repeat=2):
                for color, title in ((None, ""), ("#336699", "T")):
                    p = new(draw_ergosphere=ergo)
                    kw = dict(color=color, title=title) if color else {}
                    p.plot2D(g, **(kw if (A, B) == (1, 2) and not color else dict(kw, coordinates=(A, B))))
                    ctx.step()
                    key = "%s:2D:%s:%d%d:%s" % (case["name"], ergo, A, B, color)
                    ctx.state(key)
                    verify(key, p, want_2d(g, A, B, color, title), ergo)
                    if inter:
                        ctx.check("X%d" % A in p.fig.layout.xaxis.title.text and "X%d" % B in p.fig.layout.yaxis.title.text, key + ":axis", "%s: axis titles" % key)
                    ctx.trace()
                    plt.close("all")
        for colors, title in ((None, "P"), (C3, "Q"), (C3[::-1], "R"), (list(C3), "S")):
            p = new()
            p.parametric_plot(g, title=title, **(dict(colors=colors) if colors else {}))
            ctx.step()
            key = "%s:par:%s" % (case["name"], colors)
            ctx.state(key)
            verify(key, p, want_par(g, *([colors] if colors else []), title=title), True)
            ctx.trace()
        for c in [tuple(x) for x in BAD] + [(x[1], x[0]) for x in BAD] + list(itertools.product((0, 4, -1), (0, 4, -1))):
            for drawn in (False, True):
                p = new()
                w = None
                if drawn:
                    p.plot(g, title="first")
                    w = want_plot(g, None, "first")
                n = plt.get_fignums()
                ctx.raises(IndexError, lambda: p.plot2D(g, coordinates=c), "%s:bad" % case["name"], "coordinates %r" % (c,))
                ctx.step()
                ctx.state("bad", str(c), drawn)
                ctx.check(plt.get_fignums() == n, case["name"] + ":bad:figures", lambda: "refused coordinates %r open a figure" % (c,))
                if drawn or inter:
                    verify("%s:bad:%s" % (case["name"], drawn), p, w, True)
                ctx.trace()
                plt.close("all")
        for asp in ("", "Equal", "square", "equalzz", None) + (("equal",) if inter else ("data", "cube")):
            p = new()
            n = plt.get_fignums()
            ctx.raises(ValueError, lambda: p.plot(g, aspect=asp), case["name"] + ":aspect:%s" % asp, "aspect %r" % (asp,))
            ctx.step()
            ctx.check(plt.get_fignums() == n, case["name"] + ":aspect:figures", "a refused aspect opens a figure")
            if inter:
                verify(case["name"] + ":aspect", p, None, True)
        untouched(ctx, case["name"], before)
        return
    if "words" in case:
        inter = case["words"] == "interactive"
        L = (3 if inter else 2) + (ctx.tier == "thorough")
        for word in itertools.product(OPS, repeat=L - 1):
            word = (case["first"],) + word
            ps = [InteractiveGeodesicPlotter(draw_ergosphere=e) if inter else StaticGeodesicPlotter(draw_ergosphere=e) for e in (True, False)]
            model = [[], []]
            started = [inter, inter]
            for n, op in enumerate(word):
                # the last operation of a word goes to the other plotter in half of the words
                k = (n + len(word[0])) % 2 if n == len(word) - 1 else 0
                p = ps[k]
                ctx.step()
                if op == "clear":
                    if not started[k]:
                        continue
                    p.clear()
                    model[k] = []
                elif op == "bad":
                    ctx.raises(IndexError, lambda: p.plot2D(G(0), coordinates=(1, 4)), "words:bad", "coordinates (1, 4)")
                elif op == "badaspect":
                    ctx.raises(ValueError, lambda: p.plot(G(0), aspect="round"), "words:badaspect", "aspect 'round'")
                else:
                    w = call(p, op, inter)
                    started[k] = True
                    model[k] = model[k] + [w] if inter else [w]
                key = "words:%s:%s" % (case["words"], op)
                ctx.state(word[:n + 1], k)
                for j in (0, 1):
                    if inter:
                        inter_ok(ctx, key, ps[j], model[j], j == 0)
                    elif started[j]:
                        static_ok(ctx, key, ps[j], model[j][-1] if model[j] else None, j == 0)
            ctx.outcome(word[-1], len(model[0]), len(model[1]))
            ctx.trace()
            plt.close("all")
        untouched(ctx, case["name"], before)
        return
    if "animate" in case:
        g = G(case["animate"])
        for ergo in (True, False):
            for interval, color in ((10, None), (50, "#336699")):
                p = StaticGeodesicPlotter(draw_ergosphere=ergo)
                p.animate(g, **(dict(interval=interval, color=color) if color else {}))
                ctx.step()
                key = "%s:%s:%d" % (case["name"], ergo, interval)
                fr = list(p.ani.new_frame_seq())
                t = g.trajectory[1]
                b = mpl_bodies(p.ax)
                ctx.check(set(b) == ({HORIZON, ERGO} if ergo else {HORIZON}) and p.ax.name == "3d" and len(p.ax.lines) == 1, key + ":bodies", lambda: "%s: bodies %s" % (key, sorted(b)))
                if color:
                    ctx.check(np.allclose(to_rgb(p.ax.lines[0].get_color()), to_rgb(color), atol=1 / 300), key + ":color", lambda: "%s: colour %s" % (key, p.ax.lines[0].get_color()))
                seen = []
                for f in fr + fr[::-1]:
                    p.ani._draw_frame(f)
                    ctx.step()
                    ctx.state(key, f)
                    d = np.array(p.ax.lines[0].get_data_3d(), dtype=float)
                    m = d.shape[1]
                    ctx.check(same(d.T, t[:m, 1:4]), key + ":frame", lambda: "%s: frame %s shows %s" % (key, f, d.T))
                    seen.append(m)
                h = seen[:len(fr)]
                ctx.check(len(fr) == len(t) and h == sorted(h) and h[-1] == len(t) and max(np.diff([0] + h)) <= 1 and seen[len(fr):] == h[::-1], key + ":frames", lambda: "%s: points per frame %s for %d rows" % (key, seen, len(t)))
                for lim, c in zip((p.ax.get_xlim3d(), p.ax.get_ylim3d(), p.ax.get_zlim3d()), t[:, 1:4].T):
                    ctx.check(min(lim) <= c.min() + 1e-12 and max(lim) >= c.max() - 1e-12, key + ":limits", lambda: "%s: limits %s do not contain %s" % (key, lim, c))
                    w = c.max() - c.min()
                    ctx.check(w < 1e-9 or max(lim) - min(lim) <= 2 * w, key + ":limits", lambda: "%s: limits %s for %s" % (key, lim, c))
                ctx.trace()
                plt.close("all")
        untouched(ctx, case["name"], before)
        return
    if "long" in case:
        n = case["long"]
        g = Long(n)
        copy = g.trajectory[1].copy()
        for inter in (False, True):
            p = (InteractiveGeodesicPlotter if inter else StaticGeodesicPlotter)()
            for op in ("plot", "2D", "par"):
                if inter:
                    p = InteractiveGeodesicPlotter()
                key = "%s:%s:%s" % (case["name"], inter, op)
                {"plot": p.plot, "2D": p.plot2D, "par": p.parametric_plot}[op](g)
                ctx.step()
                ctx.state(key)
                w = want_2d(g, 1, 2) if op == "2D" else {"plot": want_plot, "par": want_par}[op](g)
                lines = [ply_trace(d) for d in p.fig.data if d.type.startswith("scatter")] if inter else [
                    tuple(np.array(c, dtype=float) for c in (l.get_data_3d() if op == "plot" else l.get_data())) for l in p.ax.lines]
                for want, _, _ in w["lines"]:
                    ctx.check(any(len(l) == len(want) and all(same(a, b) for a, b in zip(l, want)) for l in lines), key, lambda: "%s: no line of %d rows among %s" % (key, n, [np.shape(l) for l in lines]))
                plt.close("all")
        p = StaticGeodesicPlotter()
        quiet(p.animate, g)
        fr = list(p.ani.new_frame_seq())
        ctx.check(len(fr) == n, case["name"] + ":frames", lambda: "%d frames for %d rows" % (len(fr), n))
        for k in sorted({i for c in (0, 99, 100, 101, 255, 256, 511, 512, 999, 1000, 1001, 4095, 4096, n // 2, n - 2, n - 1) for i in (c, c + 1) if 0 <= i < len(fr)}):
            p.ani._draw_frame(fr[k])
            ctx.step()
            d = np.array(p.ax.lines[0].get_data_3d(), dtype=float)
            ctx.check(same(d.T, g.trajectory[1][:k + 1, 1:4]), case["name"] + ":frame", lambda: "frame %d shows %s" % (k, d.shape))
        plt.close("all")
        ctx.check(same(copy, g.trajectory[1]), case["name"] + ":untouched", lambda: "trajectory changed")
        ctx.trace()
        return
    if "files" in case:
        import matplotlib.image as mi
        from einsteinpy.plotting.geodesic import interactive
        d = tempfile.mkdtemp(prefix="c36")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            draw = {"3d": lambda p: p.plot(G(0), color="#112233"), "2d": lambda p: p.plot2D(G(1), color="#445566"), "par": lambda p: p.parametric_plot(G(2))}
            for ka, kb in itertools.product(draw, repeat=2):
                a, b = StaticGeodesicPlotter(), StaticGeodesicPlotter(draw_ergosphere=False)
                draw[ka](a)
                draw[kb](b)
                for n, p in (("a.png", a), ("b.png", b), ("a2.png", a)):
                    p.save(n)
                    ctx.step()
                    ctx.state("save", ka, kb, n)
                    p.fig.savefig("ref.png")
                    x, y = mi.imread(n), mi.imread("ref.png")
                    ctx.check(x.shape == y.shape and np.allclose(x, y, atol=0.02), "save:static:%s:%s:%s" % (ka, kb, n[0]), lambda: "saving plotter %s after drawing with both (%s, %s) writes something else" % (n[0], ka, kb))
                a.show()
                ctx.check(a.ax.get_legend() is not None and b.ax.get_legend() is None, "show:static:%s:%s" % (ka, kb), "show() puts the legend on another plotter's figure")
                for p, k in ((a, ka), (b, kb)):
                    for f in ("Geodesic.png", "Parametric.png"):
                        if os.path.exists(f):
                            os.remove(f)
                    p.save()
                    ctx.step()
                    want = "Geodesic.png" if k == "3d" else "Parametric.png"
                    ctx.check([f for f in ("Geodesic.png", "Parametric.png") if os.path.exists(f)] == [want], "save:default:" + k, "default file name of a %s plot" % k)
                ctx.trace()
                plt.close("all")
            # the interactive plotter hands its figure to plotly: only the call is recorded
            calls = []
            old = interactive.saveplot
            interactive.saveplot = lambda fig, **k: calls.append((fig, k))
            try:
                for n in ("Geodesic.png", "x.svg", "a.b.jpeg", "d/e.webp"):
                    for op in ("plot0", "p12", "par0"):
                        p = InteractiveGeodesicPlotter()
                        call(p, op, True)
                        p.save(*([n] if n != "Geodesic.png" else []))
                        ctx.step()
                        ctx.state("isave", n, op)
                        f, k = calls[-1]
                        ctx.check(f is p.fig and k.get("image") == n.rsplit(".", 1)[1] and k.get("image_filename") == n.rsplit(".", 1)[0], "save:interactive:" + n, lambda: "save(%r) hands over %s" % (n, k))
                        ctx.trace()
            finally:
                interactive.saveplot = old
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        return
    from einsteinpy.plotting.geodesic import core
    sh = {k: type(k, (), {})() for k in ("ZMQInteractiveShell", "TerminalInteractiveShell", "Shell", "InteractiveShell")}
    for k in [None] + list(sh):
        had = hasattr(builtins, "get_ipython")
        try:
            if k:
                builtins.get_ipython = lambda: sh[k]
            c = core.in_ipynb()
        finally:
            if k and not had:
                del builtins.get_ipython
        ctx.step()
        ctx.state("shell", k)
        ctx.check(c is (InteractiveGeodesicPlotter if k == "ZMQInteractiveShell" else StaticGeodesicPlotter), "shell:%s" % k, lambda: "in %s the plotter is %s" % (k, c.__name__))
        ctx.trace()
    ctx.check(issubclass(GeodesicPlotter, StaticGeodesicPlotter), "shell:class", "GeodesicPlotter outside IPython is not the static one")
