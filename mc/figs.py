"""What a figure contains, read back from matplotlib and plotly objects."""
import re
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgb
from matplotlib.patches import Polygon
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.plotting import GeodesicPlotter, InteractiveGeodesicPlotter, StaticGeodesicPlotter
from mc import geo

HORIZON, ERGO = "BH Event Horizon (Outer)", "BH Ergosphere (Outer)"
HEX = re.compile(r"#[0-9a-fA-F]{6}$")


def geodesics():
    """the geodesics that get drawn"""
    kw = dict(suppress_warnings=True)
    return [
        Timelike(metric="Kerr", metric_params=(0.9,), position=[6., 1.3, 0.], momentum=[0., 1., 3.], steps=5, **kw),
        Nulllike(metric="Schwarzschild", metric_params=(), position=[7., 2., 1.], momentum=[-.1, -1., 2.], steps=3, **kw),
        Geodesic(metric="KerrNewman", metric_params=(0.5, 0.0), position=[9., 1.6, -2.], momentum=[.2, 0., -3.], steps=4, return_cartesian=False, order=4, **kw),
        Nulllike(metric=geo.wavy, metric_params=(0.11,), position=[.3, .5, .7], momentum=[.4, -.3, .5], steps=1, return_cartesian=False, **kw),
    ]


def spin(a):
    """a geodesic that only serves to say what black hole is drawn"""
    return Timelike(metric="Kerr", metric_params=(a,), position=[9., 1.6, 0.], momentum=[0., 0., 3.], steps=2, suppress_warnings=True)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def mpl_axes(fig):
    """the axes that have something in them"""
    return [a for a in fig.axes if a.lines or a.collections or a.patches]


def mpl_lines(ax):
    out = []
    for l in ax.lines:
        xy = l.get_data_3d() if hasattr(l, "get_data_3d") else l.get_data()
        out.append((tuple(np.asarray(v, dtype=float) for v in xy), l.get_label(), to_rgb(l.get_color()), l.get_linestyle()))
    return out


def mpl_bodies(ax):
    """label -> points on the drawn surfaces / outlines, colour"""
    out = {}
    for c in ax.collections:
        if isinstance(c, Poly3DCollection):
            v = np.asarray(c._faces if hasattr(c, "_faces") else c._vec[:3].T, dtype=float).reshape(-1, 3)
            out.setdefault(c.get_label(), []).append((v, tuple(np.asarray(c.get_facecolor())[0][:3])))
    for p in ax.patches:
        if isinstance(p, Polygon):
            out.setdefault(p.get_label(), []).append((np.asarray(p.get_xy(), dtype=float), tuple(p.get_facecolor()[:3])))
    return out


def ply_trace(t):
    if t.type == "surface":
        return np.stack([np.asarray(t[k], dtype=float).ravel() for k in "xyz"], axis=1)
    return tuple(np.asarray(t[k], dtype=float) for k in ("xyz" if t.type == "scatter3d" else "xy"))


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)
