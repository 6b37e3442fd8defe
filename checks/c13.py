"""The predefined space-times solve the field equations they are documented to solve."""
import itertools
from mc.symb import *
from einsteinpy.symbolic import predefined as pre

PID = "C13"
LEVEL = "model_checking"
BOUND = {"quick": "every predefined metric x 2-5 values per parameter (including c != 1, zero spin/charge, negative values) x 2-3 "
                  "points, plus every predefined metric in default symbolic form",
         "thorough": "more parameter values and a 3x3x3x3 grid of points"}
ASSUMPTIONS = ["field equations are evaluated numerically (40-digit input, float64 tensor algebra) at the enumerated points"]

# name -> (factory name, list of kwargs, points)
R = sp.Rational
F = {
    "Minkowski": dict(c=[1, 2, R(1, 3)]),
    "MinkowskiCartesian": dict(c=[1, 2, R(1, 3)]),
    "MinkowskiPolar": dict(c=[1, 2, R(1, 3)]),
    "Schwarzschild": dict(c=[1, 2, R(1, 3)], sch=[0, 1, R(1, 2), -1]),
    "Kerr": dict(c=[1, 2], sch=[0, 1, R(3, 2)], a=[0, R(1, 3), -R(2, 5), 1]),
    "KerrNewman": dict(c=[1, 2], G=[1, 2], eps_0=[1, R(1, 7)], sch=[0, 1], a=[0, R(1, 3), -R(2, 5)], Q=[0, R(1, 2), -2]),
    "ReissnerNordstorm": dict(c=[1, 2], G=[1, 2], eps_0=[1, R(1, 7)], sch=[0, 1], Q=[0, R(1, 2), -2]),
    "AntiDeSitter": {}, "AntiDeSitterStatic": {}, "DeSitter": {}, "Godel": {}, "Davidson": {}, "CMetric": {},
    "BertottiKasner": dict(c=[1, 2, R(1, 3)], k=[1], lambd=[1, 2, R(1, 5)]),
    "BarriolaVilekin": dict(c=[1, 2], k=[R(1, 2), 1, 2]),
    "Ernst": dict(B=[0, R(1, 5), -1], M=[0, 1, R(1, 3)]),
    "JanisNewmanWinicour": dict(c=[1, 2], G=[1, 2], gam=[1, R(1, 2), 2], M=[0, R(1, 3), R(1, 5)]),
    "BesselGravitationalWave": dict(C=[0, 1, R(1, 3), -1]),
    "AlcubierreWarp": dict(x_s=[0, 1], sigma=[1, 4], R=[R(1, 2), 2], v=[0, R(1, 2), 2]),
}
PTS = [(0.3, 4.7, 0.8, 0.2), (0.7, 6.1, 2.2, 1.9)]
PT_BY = {
    "CMetric": [(0.3, 0.4, 0.9, 0.2), (1.1, 0.3, 0.5, 0.7)],
    "BesselGravitationalWave": [(0.3, 1.4, 0.8, 0.2), (2.2, 0.5, 0.3, -0.4)],
    "AlcubierreWarp": [(0.3, 0.4, 0.9, 0.2), (1.1, 2.3, -0.5, 0.7), (0.2, -1.3, 0.0, 0.4)],
    "Davidson": [(0.8, 0.4, 0.9, 0.2), (1.1, 1.3, -0.5, 0.7)],
    "Godel": [(0.3, 0.4, 0.9, 0.2), (1.1, -0.3, -0.5, 0.7)],
    "DeSitter": [(0.3, 0.4, 0.9, 0.2), (1.1, -0.3, -0.5, 0.7)],
    "AntiDeSitter": [(0.3, 0.4, 0.9, 0.2), (1.1, 1.3, 2.5, 0.7)],
    "AntiDeSitterStatic": [(0.3, 0.4, 0.9, 0.2), (1.1, 1.3, 2.5, 0.7)],
}
GRID = [(x0, x1, x2, x3) for x0 in (0.3, 0.9, 1.2) for x1 in (0.6, 1.3, 5.2) for x2 in (0.5, 1.4, 2.6) for x3 in (0.2,)]


def kwlist(name):
    d = F[name]
    ks = list(d)
    return [dict(zip(ks, v)) for v in itertools.product(*(d[k] for k in ks))]


def cases(tier):
    out = []
    for name in F:
        kws = kwlist(name)
        for i in range(0, len(kws), 8):
            out.append({"name": "%s:%d" % (name, i), "metric": name, "lo": i, "hi": i + 8, "grid": tier == "thorough"})
    return out


def zero(ctx, T, scale, key, what):
    z = np.asarray(T)
    sc = max(1e-3, scale)
    ctx.check(close(z, 0 * z, rtol=1e-7, scale=sc), key, lambda: "%s: %s (largest entry %s, scale %s)" % (key, what, np.max(np.abs(z)), sc))


def scale_of(g):
    return float(max(np.max(np.abs(g.riem_l)), np.max(np.abs(g.ch)) ** 2 * np.max(np.abs(g.g)), 1e-6))


def mixed_ein(g):
    return np.einsum("ab,bc->ac", g.gi, g.ein)


def verify(ctx, name, kw, g, key):
    """the field equations of each space-time, at one point"""
    sc = scale_of(g)
    n = 4
    det = np.linalg.det(g.g)
    ctx.check(np.real(det) < 0 and abs(np.imag(det)) < 1e-9 * abs(det) + 1e-12 or name in LOOSE, key + ":signature", lambda: key + ": determinant %s is not negative" % det)
    x = g.pt
    if name in ("Minkowski", "MinkowskiCartesian", "MinkowskiPolar"):
        zero(ctx, g.riem_l, sc, key + ":flat", "not flat")
    elif name in ("Schwarzschild", "Kerr", "BesselGravitationalWave"):
        zero(ctx, g.ric, sc, key + ":vacuum", "Ricci tensor is not zero")
    elif name in ("ReissnerNordstorm", "KerrNewman", "Ernst"):
        # Rainich: R = 0 and Ric^a_b Ric^b_c = 1/4 (Ric.Ric) delta
        scale = float(max(1e-9, abs(g.R), np.max(np.abs(g.ric))))
        zero(ctx, g.R, max(sc * float(np.max(np.abs(g.gi))), scale), key + ":R", "Ricci scalar is not zero")
        m = np.einsum("ab,bc->ac", g.gi, g.ric)
        q = m @ m
        zero(ctx, q - np.trace(q) / 4 * np.eye(4), float(max(1e-6, np.max(np.abs(m)) ** 2)), key + ":rainich", "not an electrovac solution")
        src = kw.get("Q", 0) if name != "Ernst" else kw["B"]
        if src == 0:
            zero(ctx, g.ric, sc, key + ":vacuum", "Ricci tensor is not zero without a field")
        elif name != "Ernst":
            # Ric^theta_theta of a charge: q^2/ (r^2 + a^2 cos^2)^2 in units with c folded in
            rq = float(kw["Q"]) ** 2 * float(kw["G"]) / (4 * np.pi * float(kw["eps_0"]) * float(kw["c"]) ** 4)
            syms = list(g.pt)
            r, th = float(g.pt[syms[1]]), float(g.pt[syms[2]])
            a = float(kw.get("a", 0))
            sg = r * r + a * a * np.cos(th) ** 2
            inv = np.trace(q)
            want = 4 * (rq * float(kw["c"]) ** 2 / sg ** 2) ** 2
            ctx.check(abs(inv - want) <= 1e-6 * abs(want), key + ":charge", lambda: "%s: Ric.Ric = %s, expected %s" % (key, inv, want))
    elif name in ("AntiDeSitter", "AntiDeSitterStatic"):
        zero(ctx, g.ric + 3 * g.g, sc, key + ":lambda", "Ricci tensor is not -3 g")
        zero(ctx, g.weyl, sc, key + ":weyl", "Weyl tensor is not zero")
    elif name == "DeSitter":
        al = float(ctx_params(x, "alpha"))
        zero(ctx, g.ric - 3 / al ** 2 * g.g, sc, key + ":lambda", "Ricci tensor is not 3/alpha^2 g")
        zero(ctx, g.weyl, sc, key + ":weyl", "Weyl tensor is not zero")
    elif name == "BertottiKasner":
        lam = float(kw["lambd"]) * float(kw["c"]) ** 2
        zero(ctx, g.ric - lam * g.g, sc, key + ":lambda", "Ricci tensor is not Lambda g")
    elif name == "Godel":
        om = float(ctx_params(x, "omega"))
        u = g.g[0]
        zero(ctx, g.ric - 2 * om ** 2 * np.outer(u, u), sc, key + ":dust", "Ricci tensor is not 2 omega^2 u u")
    elif name == "Davidson":
        e = mixed_ein(g)
        zero(ctx, g.R, sc, key + ":R", "radiation fluid must be traceless")
        want = e[0, 0] * np.diag([1, -1 / 3, -1 / 3, -1 / 3])
        zero(ctx, e - want, float(np.max(np.abs(e))), key + ":fluid", "stress is not that of a radiation fluid at rest")
        ctx.check(-np.real(e[0, 0]) > 0, key + ":rho", key + ": energy density is not positive")
    elif name == "BarriolaVilekin":
        k = float(kw["k"])
        th = float(list(x.values())[2])
        want = np.zeros((4, 4))
        want[2, 2] = 1 - k * k
        want[3, 3] = (1 - k * k) * np.sin(th) ** 2
        zero(ctx, g.ric - want, sc, key + ":monopole", "Ricci tensor is not that of a global monopole")
        if k == 1:
            zero(ctx, g.riem_l, sc, key + ":flat", "k = 1 is not flat")
    elif name == "JanisNewmanWinicour":
        # Ric_ab = S_a S_b with a radial scalar field
        want = np.zeros((4, 4), dtype=complex)
        want[1, 1] = g.ric[1, 1]
        zero(ctx, g.ric - want, sc, key + ":scalar", "Ricci tensor has components other than rr")
        if kw["gam"] == 1 or kw["M"] == 0:
            zero(ctx, g.ric, sc, key + ":vacuum", "gamma = 1 is not Schwarzschild")
        else:
            rs = float(2 * kw["G"] * kw["M"]) / float(kw["c"]) ** 2
            gm = float(kw["gam"])
            r = float(list(x.values())[1])
            b = rs / gm
            w = (1 - gm ** 2) * b ** 2 / (2 * r ** 2 * (r - b) ** 2)
            ctx.check(abs(g.ric[1, 1] - w) <= 1e-6 * abs(w), key + ":amplitude", lambda: "%s: R_rr = %s, expected %s" % (key, g.ric[1, 1], w))
    elif name == "CMetric":
        zero(ctx, g.ric, sc, key + ":vacuum", "C-metric with cubic structure functions is not vacuum")
    elif name == "AlcubierreWarp":
        v, xs, sg, RR = (float(kw[q]) for q in ("v", "x_s", "sigma", "R"))
        xx = [float(q) for q in list(x.values())[:4]]
        rs = np.sqrt((xx[1] - xs) ** 2 + xx[2] ** 2 + xx[3] ** 2)
        f = (np.tanh(sg * (rs + RR)) - np.tanh(sg * (rs - RR))) / (2 * np.tanh(sg * RR))
        want = np.diag([-1 + v * v * f * f, 1., 1., 1.])
        want[0, 1] = want[1, 0] = -v * f
        zero(ctx, g.g - want, 1.0, key + ":form", "not the Alcubierre line element")
        ctx.check(abs(det + 1) < 1e-9, key + ":det", key + ": determinant is not -1")
        if v == 0:
            zero(ctx, g.riem_l, 1.0, key + ":flat", "zero velocity is not flat")
    else:
        raise AssertionError(name)


LOOSE = {"Schwarzschild", "JanisNewmanWinicour"}


def ctx_params(pt, name):
    for s in pt:
        if str(s) == name:
            return pt[s]
    raise KeyError(name)


def default_params(T):
    """values for the free symbols of a metric whose factory takes no parameters"""
    vals = {"alpha": 1.7, "omega": 0.6}
    return {s: vals[str(s)] for s in T.tensor().free_symbols if s not in T.syms}


def run_case(case, ctx):
    name = case["metric"]
    fac = getattr(pre, name)
    for kw in kwlist(name)[case["lo"]:case["hi"]]:
        T = fac(**kw)
        ctx.step()
        ctx.check(type(T) is MetricTensor and T.config == "ll" and T.dims == 4, name + ":type", name + " is not a covariant 4-dimensional metric")
        arr = T.tensor().tolist()
        funcs = {}
        if name == "CMetric":
            s = T.syms
            cub = lambda z: z ** 3 - 2 * z / 3 + R(11, 10)
            funcs = {sp.Function("f")(s[1]): cub(s[1]), sp.Function("h")(s[2]): -cub(-s[2])}
        pts = PT_BY.get(name, PTS) if not case["grid"] else PT_BY.get(name, PTS) + GRID
        if name in ("Kerr", "KerrNewman", "Schwarzschild", "ReissnerNordstorm", "JanisNewmanWinicour", "Ernst"):
            pts = [p for p in pts if p[1] > 4]
        if name == "CMetric":
            pts = PT_BY[name]
        spec = curv.Spec(name, T.syms, arr, pts, default_params(T), funcs)
        for k in range(len(pts)):
            g = Geo(spec, k)
            key = "%s(%s)@%d" % (name, ",".join("%s=%s" % q for q in sorted(kw.items())), k)
            ctx.state(key)
            ctx.outcome(name, np.round(g.g, 8).tobytes())
            verify(ctx, name, kw, g, key)
        ctx.trace()
