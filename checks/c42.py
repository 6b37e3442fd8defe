"""Fractal: every image of every figure on a grid of angles and divisions, every slider position; small images for every size, range and bound."""
import contextlib
import inspect
import io
import itertools
import sys
import numpy as np
from plotly import graph_objects as go
from einsteinpy.plotting import fractal

PID = "C42"
LEVEL = "model_checking"
BOUND = {"quick": "7 figures with 1-4 divisions (every pixel of every image, every slider position); 12 image sizes x 6 angles x 7 ranges x 5 iteration bounds x 3 escape radii, each pixel",
         "thorough": "24 figures with up to 6 divisions"}
ASSUMPTIONS = ["Orbits near the Julia set amplify rounding: with more than 12 iterations up to 1% of the pixels may differ from the reference."]
FIG = [(np.pi / 3, np.pi, 2), (0.0, 1.0, 1), (-1.0, 2.5, 3), (2.75, 2.75, 2), (3.0, 1.0, 2), (0.5, 0.9, 4), (5.0, 7.0, 1)]


def cases(tier):
    f = FIG + ([(0.3 * k - 2, 0.5 * k, 1 + k % 6) for k in range(17)] if tier == "thorough" else [])
    return [dict(name="figure:%d" % i, fig=list(x)) for i, x in enumerate(f)] + [dict(name="images:%d" % i, img=i) for i in range(6)] + [dict(name="show", show=1)]


def julia(w, h, ang, zmax, itmax, xr, yr):
    i, j = np.meshgrid(np.arange(w), np.arange(h), indexing="ij")
    z = (xr[0] + i * (xr[1] - xr[0]) / w) + 1j * (yr[0] + j * (yr[1] - yr[0]) / h)
    c = 0.8 * (np.cos(ang) + 1j * np.sin(ang))
    n = np.zeros((w, h), dtype=int)
    for _ in range(itmax):
        go_ = np.abs(z) < zmax
        n[go_] += 1
        z[go_] = z[go_] ** 2 + c
    return (n / itmax) ** 0.2


def agree(a, b, itmax):
    a = np.asarray(a, dtype=float)
    if a.shape != b.shape:
        return False
    d = np.abs(a - b) > 1e-9
    return d.sum() <= (0.01 * d.size if itmax > 12 else 0)


def run_case(case, ctx):
    if "fig" in case:
        a, b, n = case["fig"]
        with contextlib.redirect_stdout(io.StringIO()):
            f = fractal(start_angle=a, end_angle=b, divs=n, show=False)
        ctx.step()
        key = "figure:%g:%g:%d" % (a, b, n)
        if not ctx.check(isinstance(f, go.Figure) and len(f.data) == n and all(t.type == "heatmap" for t in f.data), key + ":traces", lambda: "%s: %d traces" % (key, len(f.data))):
            return
        for k, ang in enumerate(np.linspace(a, b, n)):
            want = julia(400, 400, ang, 20, 64, (-1.6, 1.6), (-1.6, 1.6))
            ctx.state(key, k)
            got = np.asarray(f.data[k].z, dtype=float)
            ctx.check(agree(got, want, 64), key + ":image", lambda: "%s: image %d is not the Julia set of angle %g (%d pixels differ)" % (key, k, ang, np.sum(np.abs(got - want) > 1e-9) if got.shape == want.shape else -1))
            ctx.check(np.array_equal(got[0], got[0]) and got.min() > 0 and got.max() <= 1, key + ":range", "%s: pixels outside (0, 1]" % key)
            ctx.outcome(round(float(got.mean()), 5))
        sl = f.layout.sliders
        if ctx.check(len(sl) == 1 and len(sl[0].steps) == n, key + ":slider", lambda: "%s: sliders %s" % (key, sl)):
            ctx.check(sl[0].active == n - 1, key + ":active", lambda: "%s: slider starts at %s" % (key, sl[0].active))
            # what is on top at the start is what the slider says
            vis = [k for k, t in enumerate(f.data) if t.visible in (True, None)]
            ctx.check(vis and vis[-1] == sl[0].active, key + ":start", lambda: "%s: visible images %s" % (key, vis))
            for k, s in enumerate(sl[0].steps):
                ctx.step()
                ctx.state(key, "slider", k)
                m = list(s.args)
                ctx.check(s.method == "restyle" and m[0] == "visible" and list(m[1]) == [x == k for x in range(n)], key + ":step", lambda: "%s: position %d sets %s" % (key, k, m))
            ctx.check("%.2f" % a in sl[0].currentvalue.prefix and "%.2f" % b in sl[0].currentvalue.prefix, key + ":prefix", lambda: "%s: %s" % (key, sl[0].currentvalue.prefix))
        ctx.trace()
        return
    if "img" in case:
        img = getattr(sys.modules["einsteinpy.plotting.fractal"], "_fractal_img", None)
        if img is None or not {"dims", "angle", "zabs_max", "iter_max", "x_range", "y_range"} <= set(inspect.signature(img).parameters):
            return  # a private helper: the figures above are the public surface
        ang = (0.0, 1.1, 2.75, np.pi, -2.0, 5.5)[case["img"]]
        for (w, h), (xr, yr), it, zm in itertools.product([(1, 1), (1, 5), (5, 1), (2, 2), (3, 7), (7, 3), (10, 10), (4, 9), (16, 5), (13, 13), (2, 20), (20, 20)],
                                                          [((-1.6, 1.6), (-1.6, 1.6)), ((-0.5, 0.7), (0.0, 1.2)), ((0.0, 1.0), (-2.0, -1.0)), ((1.0, -1.0), (-0.3, 0.3)), ((0.2, 1.5), (0.2, 1.0)), ((-1.5, -0.1), (0.4, -0.4)), ((0.0, 0.5), (-1.0, 0.0))], (1, 2, 5, 12, 64), (20, 2, 4.5)):
            got = img(dims=(w, h), angle=ang, zabs_max=zm, iter_max=it, x_range=xr, y_range=yr)
            ctx.step()
            key = "image:%g:%dx%d:%s:%s:%d:%g" % (ang, w, h, xr, yr, it, zm)
            ctx.state(key)
            want = julia(w, h, ang, zm, it, xr, yr)
            ctx.check(agree(got, want, it) or it == 64 and w * h < 100 and np.sum(np.abs(got - want) > 1e-9) <= 1, key, lambda: "%s: %s, expected %s" % (key, got[0], want[0]))
            ctx.outcome(round(float(np.mean(got)), 6))
        ctx.trace()
        return
    shown = []
    old = go.Figure.show
    go.Figure.show = lambda self, *a, **k: shown.append(self)
    try:
        for kw in (dict(show=True), dict(show=False), {}):
            shown.clear()
            with contextlib.redirect_stdout(io.StringIO()) as o:
                f = fractal(divs=1, **kw)
            ctx.step()
            ctx.state("show", str(kw))
            ctx.check((len(shown) == 1 and shown[0] is f) if kw.get("show", True) else not shown, "show:%s" % kw, "show=%s: shown %d times" % (kw, len(shown)))
            ctx.check("plotly" in o.getvalue() if kw.get("show", True) else "plotly" not in o.getvalue(), "text:%s" % kw, "printed %r" % o.getvalue())
        ctx.check(inspect.signature(fractal).parameters["divs"].default == 12 and abs(inspect.signature(fractal).parameters["start_angle"].default - np.pi / 3) < 1e-12
                  and abs(inspect.signature(fractal).parameters["end_angle"].default - np.pi) < 1e-12, "defaults", "documented defaults changed")
    finally:
        go.Figure.show = old
    ctx.trace()
