"""The metric alphabet of the symbolic checks: every dimension 2..5, diagonal / non-diagonal / degenerate-in-a-direction /
with parameters / with undefined functions / float and rational entries, flat and curved."""
import sympy as sp

from mc.curv import Spec

t, r, th, ph, x, y, z, w, u, v = sp.symbols("t r theta phi x y z w u v")
a, m, k = sp.symbols("a m k")
f, h = sp.Function("f"), sp.Function("h")
sin, cos, exp, sqrt, cosh, sinh = sp.sin, sp.cos, sp.exp, sp.sqrt, sp.cosh, sp.sinh
R = sp.Rational


def D(*e):
    return [[e[i] if i == j else 0 for j in range(len(e))] for i in range(len(e))]


def _mk():
    L = []

    def add(*args, **kw):
        L.append(Spec(*args, **kw))

    # dimension 1
    add("line1", (x,), [[1 + x ** 2]], [(0.7,)])
    # dimension 2
    add("flat2", (x, y), D(1, 1), [(0.3, 0.7)])
    add("polar2", (r, ph), D(1, r ** 2), [(1.3, 0.4)])
    add("sphere2", (th, ph), D(a ** 2, a ** 2 * sin(th) ** 2), [(0.7, 0.3), (2.1, 1.1)], params={a: 1.7})
    add("hyper2", (x, y), D(1 / y ** 2, 1 / y ** 2), [(0.4, 1.3)])
    add("skew2", (x, y), [[2, x], [x, 1 + x ** 2]], [(0.4, 1.3)])
    add("rindler2", (t, x), D(-x ** 2, 1), [(0.4, 1.3)])
    add("null2", (u, v), [[0, 1 + u * v], [1 + u * v, 0]], [(0.4, 1.3)])
    # dimension 3
    add("flat3", (x, y, z), D(1, 1, 1), [(0.4, 1.3, 0.2)])
    add("sph3", (r, th, ph), D(1, r ** 2, r ** 2 * sin(th) ** 2), [(1.4, 0.8, 0.2)])
    add("nil3", (x, y, z), [[1, 0, 0], [0, 1, x], [0, x, 1 + x ** 2]], [(0.4, 1.3, 0.2)])
    add("skew3", (x, y, z), [[1, 0, y], [0, 2 + z, 0], [y, 0, 3 + y ** 2]], [(0.4, 1.3, 0.2)])
    add("frw3", (t, x, y), D(-1, t ** 2, t ** 2), [(1.4, 0.8, 0.2)])
    add("btz3", (t, r, ph), D(m - r ** 2, 1 / (r ** 2 - m), r ** 2), [(0.3, 1.9, 0.2)], params={m: 1.1})
    # dimension 4
    add("mink4", (t, x, y, z), D(-1, 1, 1, 1), [(0.1, 0.4, 1.3, 0.2)])
    add("mink4pm", (t, x, y, z), D(1, -1, -1, -1), [(0.1, 0.4, 1.3, 0.2)])
    add("schw4", (t, r, th, ph), D(1 - m / r, -1 / (1 - m / r), -r ** 2, -r ** 2 * sin(th) ** 2),
        [(0.3, 3.1, 0.8, 0.2)], params={m: 1.1})
    add("frw4", (t, x, y, z), D(-1, t ** 2, t ** 2, t ** 2), [(1.4, 0.8, 0.2, 0.5)])
    add("kasner4", (t, x, y, z), D(-1, t ** R(4, 3), t ** R(4, 3), t ** R(-2, 3)), [(1.4, 0.8, 0.2, 0.5)])
    add("kasnerlike4", (t, x, y, z), D(-1, t ** 2, 1, t ** 4), [(1.4, 0.8, 0.2, 0.5)])
    add("ppwave4", (u, v, x, y), [[x ** 2 * u + x * y, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
        [(0.6, 0.2, 1.3, 0.7)])
    add("stat4", (t, x, y, z), [[-1, y, 0, 0], [y, 1 - y ** 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], [(0.1, 0.4, 1.3, 0.2)])
    add("skew4", (t, x, y, z), [[-1 - x ** 2, 0, 0, 0], [0, 1, y, 0], [0, y, 1 + y ** 2, 0], [0, 0, 0, t ** 2]],
        [(1.1, 0.4, 1.3, 0.2)])
    add("func4", (t, r, th, ph), D(-f(r), 1 / f(r), r ** 2, r ** 2 * sin(th) ** 2), [(0.3, 1.7, 0.8, 0.2)],
        funcs={f(r): 1 + r ** 2 / 7 + r / 3})
    add("float4", (t, x, y, z), D(-1.0, 1.5 * x ** 2, 0.5 * y ** 2, 2.0 * x ** 2), [(0.1, 0.4, 1.3, 0.2)])
    # dimension 5
    add("flat5", (t, x, y, z, w), D(-1, 1, 1, 1, 1), [(0.1, 0.4, 1.3, 0.2, 0.6)])
    add("warp5", (t, x, y, z, w), D(-w ** 2, w ** 2, 1, x ** 2, 1), [(0.1, 0.4, 1.3, 0.2, 0.6)])
    add("kk5", (t, x, y, z, w), [[-1, 0, 0, 0, 0], [0, 1, 0, 0, y], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0],
                                [0, y, 0, 0, 1 + y ** 2]], [(0.1, 0.4, 1.3, 0.2, 0.6)])
    return L


SPECS = _mk()
BY = {s.name: s for s in SPECS}
# metrics for which the quick tier walks every index configuration (the thorough tier does so for all of them)
FULLQ = {"polar2", "sphere2", "hyper2", "null2", "sph3", "nil3", "btz3"}


def perturbed(n, coords=None):
    """Every metric eta + one coordinate-dependent entry: all positions i<=j and all coordinates k."""
    syms = sp.symbols("x0:%d" % n)
    out = []
    for i in range(n):
        for j in range(i, n):
            for kk in range(n):
                arr = [[(-1 if p == 0 else 1) if p == q else 0 for q in range(n)] for p in range(n)]
                X = syms[kk]
                if i == j:
                    arr[i][i] = arr[i][i] * (1 + X ** 2)
                else:
                    arr[i][j] = arr[j][i] = X
                pt = tuple(0.3 + 0.17 * q for q in range(n))
                out.append(Spec("eta%d_%d%d_x%d" % (n, i, j, kk), syms, arr, [pt]))
    return out


def perturbed2(n):
    """Every metric eta + two coordinate-dependent entries at different positions (coordinates cycled)."""
    syms = sp.symbols("x0:%d" % n)
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    out = []
    for p in range(len(pos)):
        for q in range(p + 1, len(pos)):
            for kk in range(n):
                for ll in range(n):
                    arr = [[(-1 if e == 0 else 1) if e == d else 0 for d in range(n)] for e in range(n)]
                    for (i, j), X in ((pos[p], syms[kk]), (pos[q], syms[ll])):
                        if i == j:
                            arr[i][i] = arr[i][i] * (1 + X ** 2)
                        else:
                            arr[i][j] = arr[j][i] = X
                    pt = tuple(0.3 + 0.17 * e for e in range(n))
                    out.append(Spec("eta%d_%d%d_%d%d_x%d_x%d" % ((n,) + pos[p] + pos[q] + (kk, ll)), syms, arr, [pt]))
    return out


def small2(entries=None, tag="m2"):
    """Every symmetric 2x2 metric over a small alphabet of entries (non-degenerate at the point)."""
    X, Y = x, y
    alpha = entries or [sp.Integer(0), sp.Integer(1), X, Y ** 2, 1 + X * Y]
    out = []
    pt = (0.6, 1.3)
    for p, e11 in enumerate(alpha):
        for q, e12 in enumerate(alpha):
            for s, e22 in enumerate(alpha):
                d = sp.expand(e11 * e22 - e12 ** 2)
                if d == 0 or abs(d.subs({X: pt[0], Y: pt[1]})) < 1e-3:
                    continue
                out.append(Spec(tag + "_%d%d%d" % (p, q, s), (X, Y), [[e11, e12], [e12, e22]], [pt]))
    return out


def small2q():
    return small2([sp.Integer(0), sp.Integer(1), x, y ** 2], "m2q")


# dimension 6: one static and one mixed metric
BIG = [Spec("mix6", (t, x, y, z, w, v), [[-1, 0, x, 0, 0, 0], [0, 1 + y ** 2, 0, 0, 0, 0], [x, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0],
                                         [0, 0, 0, 0, 1, 0], [0, 0, 0, 0, 0, 1]], [(0.1, 0.4, 1.3, 0.2, 0.6, 0.9)]),
       Spec("warp6", (t, x, y, z, w, v), D(-1, 1, 1, 1, v ** 2, 1 + t ** 2), [(0.1, 0.4, 1.3, 0.2, 0.6, 0.9)])]
ENUM = {}
for _s in BIG + SPECS + perturbed(2) + perturbed(3) + perturbed(4) + small2() + small2q():
    ENUM[_s.name] = _s


def lookup(name):
    if name not in ENUM:
        for s in perturbed(5) + perturbed2(2) + perturbed2(3) + perturbed2(4):
            ENUM.setdefault(s.name, s)
    return ENUM[name]
