"""Reference model for the symbolic classes: textbook formulas evaluated with numbers.

Nothing here uses einsteinpy.  A metric is a nested list of sympy expressions; the model differentiates each component
itself (sympy.diff), evaluates the components and their first and second derivatives at one point with mpmath
(40 digits), and works with float64 numbers from there.
"""
import itertools

import mpmath as mp
import numpy as np
import sympy as sp

mp.mp.dps = 40


def flat(arr):
    """flatten nested lists / sympy arrays / scalars to a list of expressions"""
    if getattr(arr, "shape", None) == ():
        return [arr[()]]
    if hasattr(arr, "tolist"):
        arr = arr.tolist()
    if isinstance(arr, (list, tuple)):
        out = []
        for e in arr:
            out += flat(e)
        return out
    return [arr]


def _mpnum(v):
    if isinstance(v, sp.Expr) and not v.is_real:
        re, im = v.as_real_imag()
        return mp.mpc(mp.mpf(str(sp.N(re, 40))), mp.mpf(str(sp.N(im, 40))))
    return mp.mpf(str(v))


def evalflat(exprs, funcs, point):
    """numbers (complex mpmath) of a list of sympy expressions; funcs: applied undefined functions -> expressions"""
    ex = []
    for e in exprs:
        e = sp.sympify(e)
        if funcs:
            e = e.subs(funcs).doit()
        ex.append(e)
    syms = list(point)
    f = sp.lambdify(syms, ex, modules="mpmath")
    return f(*[_mpnum(point[s]) for s in syms])


def ev(arr, shape, funcs, point):
    """numpy float array of a symbolic array at a point"""
    v = evalflat(flat(arr), funcs, point)
    out = np.empty(len(v), dtype=complex)
    for i, x in enumerate(v):
        out[i] = complex(x)
    return out.reshape(shape)


def close(a, b, rtol=1e-9, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    s = max(1e-3, float(np.max(np.abs(b)))) if scale is None else scale
    return bool(np.max(np.abs(a - b)) <= rtol * s)


def worst(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    d = np.where(np.isfinite(d), d, np.inf)
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return "component %s is %s, expected %s" % (tuple(int(k) for k in i), a[i], b[i])


class Spec:
    """A metric of the alphabet: coordinates, covariant components, parameters, undefined functions, points."""

    def __init__(self, name, syms, arr, points, params=None, funcs=None):
        self.name, self.syms = name, list(syms)
        self.arr = [[sp.sympify(e) for e in row] for row in arr]
        self.points = points
        self.params = params or {}
        self.funcs = funcs or {}
        self.n = len(self.syms)

    def point(self, k):
        d = dict(zip(self.syms, self.points[k]))
        d.update(self.params)
        return d


class Geo:
    """numeric geometry of a Spec at one point"""

    def __init__(self, spec, k):
        n, s = spec.n, spec.syms
        self.n = n
        pt = spec.point(k)
        self.pt = pt
        g = [[e.subs(spec.funcs).doit() if spec.funcs else e for e in row] for row in spec.arr]
        ex = [g[i][j] for i in range(n) for j in range(n)]
        d1 = [[[sp.diff(g[i][j], s[a]) for j in range(n)] for i in range(n)] for a in range(n)]
        d2 = {}
        for a in range(n):
            for b in range(a, n):
                d2[a, b] = [[sp.diff(d1[a][i][j], s[b]) for j in range(n)] for i in range(n)]
        lst = list(ex)
        for a in range(n):
            lst += [d1[a][i][j] for i in range(n) for j in range(n)]
        for key in sorted(d2):
            lst += [d2[key][i][j] for i in range(n) for j in range(n)]
        v = np.array([complex(x) for x in evalflat(lst, None, pt)]).reshape(-1, n, n)
        self.g = v[0]
        self.dg = v[1:1 + n]
        self.ddg = np.empty((n, n, n, n), dtype=complex)
        for q, key in enumerate(sorted(d2)):
            a, b = key
            self.ddg[a, b] = self.ddg[b, a] = v[1 + n + q]
        self.gi = np.linalg.inv(self.g)
        dg, ddg, gi = self.dg, self.ddg, self.gi
        # L[m,j,k] = 1/2 (d_k g_mj + d_j g_mk - d_m g_jk)
        L = 0.5 * (np.einsum("kmj->mjk", dg) + np.einsum("jmk->mjk", dg) - dg)
        dL = 0.5 * (np.einsum("lkmj->lmjk", ddg) + np.einsum("ljmk->lmjk", ddg) - ddg)
        self.chl = L
        self.ch = np.einsum("im,mjk->ijk", gi, L)
        dgi = -np.einsum("ia,lab,bm->lim", gi, dg, gi)
        dch = np.einsum("lim,mjk->lijk", dgi, L) + np.einsum("im,lmjk->lijk", gi, dL)
        self.dch = dch
        G = self.ch
        # R^t_{s r n} = d_r G^t_{s n} - d_n G^t_{s r} + G^p_{s n} G^t_{p r} - G^p_{s r} G^t_{p n}
        self.riem = (np.einsum("rtsn->tsrn", dch) - np.einsum("ntsr->tsrn", dch)
                     + np.einsum("psn,tpr->tsrn", G, G) - np.einsum("psr,tpn->tsrn", G, G))
        self.riem_l = np.einsum("at,tsrn->asrn", self.g, self.riem)
        self.ric = np.einsum("tstn->sn", self.riem)
        self.R = np.einsum("ab,ab->", gi, self.ric)
        self.ein = self.ric - 0.5 * self.g * self.R
        if n >= 3:
            self.sch = (self.ric - self.R * self.g / (2 * (n - 1))) / (n - 2)
            P, g = self.sch, self.g
            kn = (np.einsum("ac,bd->abcd", g, P) + np.einsum("bd,ac->abcd", g, P)
                  - np.einsum("ad,bc->abcd", g, P) - np.einsum("bc,ad->abcd", g, P))
            self.weyl = self.riem_l - kn

    def reconfig(self, arr, old, new):
        """move indices of a numeric tensor with the metric"""
        arr = np.asarray(arr)
        for i, (o, w) in enumerate(zip(old, new)):
            if o == w:
                continue
            m = self.gi if w == "u" else self.g
            arr = np.moveaxis(np.tensordot(m, arr, axes=(1, i)), 0, i)
        return arr


def configs(k):
    return ["".join(c) for c in itertools.product("lu", repeat=k)]
