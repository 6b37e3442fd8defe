"""Separate computations do not interfere: every interleaving of two threads, within a bound on the number of switches, gives what each gives alone."""
import itertools
import math
import numpy as np
import sympy as sp
import astropy.units as u
from einsteinpy.coordinates import (BoyerLindquist, BoyerLindquistConversion, Cartesian, CartesianConversion, Spherical, SphericalConversion)
from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import RK45, GeodesicIntegrator, RK4naive
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import predefined
from einsteinpy.units import primitive
from einsteinpy.utils.scalar_factor import scalar_factor, scalar_factor_derivative
from mc import geo as G
from mc import sched
from mc.num import *
from mc.symb import *

PID = "C44"
LEVEL = "model_checking"
BOUND = {"quick": "two threads, switched only at lines of the package: numerical metrics, coordinates, steppers and small tools (54 operations): every ordered pair of operations x every point of the first (one preemption, after which the "
                  "second runs to its end) and, for each operation with itself on other data, every pair of points (two preemptions); symbolic operations (23): every operation against itself and a tensor product x every line at its first visit; geodesics: 5 pairs x every "
                  "line of the integrator; one metric object shared by both threads: every ordered pair of its queries x every point; user functions that call the package while being called by it",
         "thorough": "two preemptions for every pair of numerical operations (at most 2500 schedules each), single byte-code instructions instead of lines with one preemption, every ordered pair of symbolic operations"}
ASSUMPTIONS = ["A preemption inside numpy, sympy or compiled code is equivalent to one at the line of the package that called it.", "Two threads; the objects are separate, or a metric that both only query."]
P = [(1.9885e31, 0.6, 0.4, 4.0, 1.1), (5.97e24, 0.9, -0.2, 1.7, 2.2)]


def num_ops(v, build_inside=False):
    """(label, build, run): 'build' makes the object, 'run' queries it"""
    M, a, f, x, th = P[v]
    r = x * 2 * 6.6743e-11 * M / 299792458.0 ** 2
    xs, vec = np.array([0.3, r, th, 0.4]), np.array([0.3, r, th, 0.4, 1.3, 1e7 * (v + 1), 50. / r, 80. / r])
    out = []
    for kind in ("sch", "kerr", "kn"):
        def build(kind=kind):
            return make(kind, M, a if kind != "sch" else 0.0, charge(M, f) if kind == "kn" else 0.0, q=0.7 * (v + 1) if kind == "kn" else 0.0)
        qs = [("cov", lambda g: g.metric_covariant(xs)), ("contra", lambda g: g.metric_contravariant(xs)), ("chr", lambda g: g.christoffels(xs)), ("f_vec", lambda g: g.f_vec(0., vec)),
              ("sing", lambda g: [s(np.array([0.2, 1.0])) if callable(s) else s for _, s in sorted(g.singularities().items())])]
        if kind == "kn":
            qs += [(n, lambda g, n=n: getattr(g, n)(xs)) for n in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant")]
        out += [("%s.%s" % (kind, n), build, q) for n, q in qs]

    def user():
        return BaseMetric(coords=sph(), M=M * u.kg, metric_cov=lambda x: np.diag([1. + v, -1., -x[1] ** 2, -x[1] ** 2]), perturbation=lambda x: 0.1 * (v + 1) * np.ones((4, 4)))
    out += [("user.cov", user, lambda g: g.metric_covariant(np.array([0., 2. + v, 1., 1.]))), ("user.contra", user, lambda g: g.metric_contravariant(np.array([0., 2. + v, 1., 1.])))]
    B = BaseMetric
    out.append(("static", lambda: None, lambda _: [B.sigma(r, th, M, a), B.delta(r, M, a, charge(M, f)), B.rho(r, th, M, a), B.alpha(M * u.kg, a), B.schwarzschild_radius(M * u.kg)]))
    for kind in ("sch", "kerr", "kn"):
        def whole(_, kind=kind):
            g = make(kind, M, a if kind != "sch" else 0.0, charge(M, f) if kind == "kn" else 0.0)
            return [g.sch_rad, g.metric_covariant(xs)]
        out.append((kind + ".new", lambda: None, whole))
    return out


def coord_ops(v):
    M, a = P[v][:2]
    c = (1.5 + v, -4e3 * (1 + v), 3e3, 7e3 - v)
    s = (1.5 + v, 6e3 * (1 + v), 1.1 + 0.4 * v, -0.7 + v)
    w = (3e4 * (v + 1), -2e4, 1e4)
    ws = (3e4 * (v + 1), 2.0 - v, -3.0)
    out = []
    cu, su = (u.s, u.m, u.m, u.m), (u.s, u.m, u.rad, u.rad)
    pos = {"Cartesian": (Cartesian, [x * k for x, k in zip(c, cu)]), "Spherical": (Spherical, [x * k for x, k in zip(s, su)]), "BoyerLindquist": (BoyerLindquist, [x * k for x, k in zip(s, su)])}
    to = {"Cartesian": "to_cartesian", "Spherical": "to_spherical", "BoyerLindquist": "to_bl"}
    dif = {"Cartesian": lambda: cart(*c, *w), "Spherical": lambda: sph(*s, *ws), "BoyerLindquist": lambda: bl(*s, *ws)}
    tod = {"Cartesian": "cartesian_differential", "Spherical": "spherical_differential", "BoyerLindquist": "bl_differential"}
    for k, (cls, args) in pos.items():
        for k2, m in to.items():
            if k2 != k:
                out.append(("%s.%s" % (k, m), lambda cls=cls, args=args: cls(*args), lambda o, m=m: list(getattr(o, m)(M=M, a=a).values())))
    for k, f in dif.items():
        for k2, m in tod.items():
            if k2 != k:
                out.append(("%s.%s" % (k, m), f, lambda o, m=m: list(getattr(o, m)(M=M, a=a).values())))
    out.append(("Spherical.velocity", lambda: (dif["Spherical"](), make("sch", M, 0, 0)), lambda o: list(o[0].velocity(o[1]))))
    out.append(("BoyerLindquist.velocity", lambda: (dif["BoyerLindquist"](), make("kerr", M, a, 0)), lambda o: list(o[0].velocity(o[1]))))

    def flat():
        return BaseMetric(coords=cart(), M=M * u.kg, metric_cov=lambda x: np.diag([1., -1., -1., -1.]))
    out.append(("Cartesian.velocity", lambda: (dif["Cartesian"](), flat()), lambda o: list(o[0].velocity(o[1]))))
    out.append(("plain", lambda: None, lambda _: [*CartesianConversion(*c).convert_spherical(), *SphericalConversion(*s, *ws).convert_cartesian(), *BoyerLindquistConversion(*s).convert_cartesian(M=M, a=a)]))
    out.append(("position", lambda: [f() for f in dif.values()], lambda o: [x for d in o for x in d.position()]))
    return out


def tool_ops(v):
    A = np.array([[0.1, -1.3], [0.9, -0.2 - v]])
    rhs = lambda t, y: A @ y + t * (v + 1)
    y0 = np.array([1.0 + v, 2.0])

    def steps(cls, **k):
        def run(s):
            for _ in range(2):
                s.step()
            return [s.t, *s.y]
        return lambda: cls(fun=rhs, t0=0.1 * v, y0=y0, t_bound=3. + v, **k), run

    def sinks(n):
        return lambda: SchwarzschildEmbedding(1e25 * (v + 1) * u.kg), n
    f, prm = G.USER["expanding"] if v else G.USER["rindler"]
    prm = tuple(prm)
    q0, p0 = np.array([0.1, 3.0 + v, 1.0, 0.5]), np.array([-1.2, 0.3, 0.1 * (v + 1), 0.2])

    def integ(order, **k):
        def run(s):
            s.step()
            return np.array([*s.results[-1]], dtype=float)
        return lambda: GeodesicIntegrator(metric=f, metric_params=prm, q0=q0, p0=p0, steps=3, delta=0.1 * (v + 1), order=order, omega=0.5 + v, suppress_warnings=True, **k), run
    emb = SchwarzschildEmbedding
    out = [("RK4naive", *steps(RK4naive, stepsize=0.2 + 0.1 * v)), ("RK45", *steps(RK45, stepsize=0.2 + 0.1 * v)),
           ("embedding", lambda: emb(1e25 * (v + 1) * u.kg), lambda e: [e.radial_coord(0.3), e.gradient(0.5)]),
           ("embedding.values", lambda: emb(1e25 * (v + 1) * u.kg), lambda e: [y for x in e.get_values(0.8 + 0.2 * v) for y in x]),
           ("embedding.surface", lambda: emb(1e25 * (v + 1) * u.kg), lambda e: [np.ravel(x)[::97] for x in e.get_values_surface(0.8 + 0.2 * v)]),
           ("primitive", lambda: None, lambda _: [float(x) for x in primitive((3. + v) * u.km, (2. - v) * u.deg, 1.5 + v)]),
           ("str", lambda: (sph if v else cart)(0., 3. + v, 1., 1., 2., 1., 1.), lambda o: [str(o), repr(o)]),
           ("scalar_factor", lambda: None, lambda _: [scalar_factor((3. + v) * u.s, e, 2.0 + v) for e in ("md", "rd", "ded")]),
           ("scalar_factor_derivative", lambda: None, lambda _: [scalar_factor_derivative((3. + v) * u.s, e, 2.0 + v) for e in ("md", "rd", "ded")]),
           ("Body", lambda: None, lambda _: body(v)), ("find", lambda: None, lambda _: predefined.find(("kerr", "sitter")[v])), ("integrator", *integ(2))]
    return out


def body(v):
    from einsteinpy.bodies import Body
    b = Body("b%d" % v, mass=(1. + v) * u.kg, R=(2. + v) * u.km, coords=(sph if v else cart)(0., 3. + v, 1., 1., 2., 1., 1.))
    return [b.name, b.mass.value, b.R.value, *[x.value for x in b.pos_vec], *[x.value for x in b.vel_vec]]


def geo_ops(v):
    """complete geodesics; switched in the integrator and the geodesic module"""
    k = dict(steps=1, delta=0.2 * (v + 1), suppress_warnings=True, return_cartesian=bool(v))
    pos, mom = [40. + 3 * v, 1.2 + 0.2 * v, 0.3], [0.1, 0.2, 3.8 + v]
    mk = lambda cls, m, p, **q: ("%s.%s" % (cls.__name__, m if isinstance(m, str) else m.__name__), lambda: None,
                                 lambda _: (lambda g: [*g.trajectory[0], *np.ravel(g.trajectory[1]), *g.momentum])(cls(metric=m, metric_params=p, position=pos, momentum=mom, **dict(k, **q))))
    return [mk(Timelike, "Schwarzschild", ()), mk(Nulllike, "Kerr", (0.9 - 0.5 * v,)), mk(Timelike, "KerrNewman", (0.3 + 0.2 * v, 0.4)), mk(Timelike, G.flat, (), order=4), mk(Nulllike, G.wavy, (0.05 * (v + 1),))]


X, Y, Z, A_, B_ = sp.symbols("x y z a b")
SPEC = {0: ([[A_ * Y, 0], [0, X ** 2]], (X, Y)), 1: ([[B_, A_ * X], [A_ * X, -1]], (X, Y))}
SPEC3 = {0: (sp.diag(-1, A_ * X ** 2, 1).tolist(), (X, Y, Z)), 1: (sp.diag(-1, 1, B_ * Y).tolist(), (X, Y, Z))}


def sym_ops(v):
    arr, syms = SPEC[v]
    m2 = lambda: MetricTensor(arr, syms, name="m%d" % v)
    m3 = lambda: MetricTensor(*SPEC3[v], name="n%d" % v)
    T = lambda: BaseRelativityTensor([[X + v, A_ * Y], [B_, X * Y]], syms, config="ul", parent_metric=m2())
    L = sp.Matrix([[2 + v, 1], [A_, 1]])
    out = [("christoffel", m2, ChristoffelSymbols.from_metric), ("riemann", m2, RiemannCurvatureTensor.from_metric), ("ricci", m2, RicciTensor.from_metric), ("scalar", m2, RicciScalar.from_metric),
           ("einstein", m2, EinsteinTensor.from_metric), ("stress", m2, StressEnergyMomentumTensor.from_metric), ("weyl", m3, WeylTensor.from_metric), ("schouten", m3, SchoutenTensor.from_metric),
           ("inv", m2, lambda m: m.inv()), ("lower", lambda: m2().change_config("uu"), lambda m: m.lower_config()), ("metric.change", m2, lambda m: m.change_config("uu")),
           ("riemann.change", lambda: RiemannCurvatureTensor.from_metric(m2()), lambda t: t.change_config("llll" if v else "uull")), ("ricci.change", lambda: RicciTensor.from_metric(m2()), lambda t: t.change_config("uu" if v else "ul")), ("einstein.change", lambda: EinsteinTensor.from_metric(m2()), lambda t: t.change_config("ul" if v else "uu")),
           ("christoffel.change", lambda: ChristoffelSymbols.from_metric(m2()), lambda t: t.change_config("lll" if v else "uuu")), ("vector", lambda: GenericVector([X + v, A_ * Y], syms, config="u", parent_metric=m2()), lambda t: t.change_config("l")),
           ("vector.lorentz", lambda: GenericVector([X + v, A_ * Y], syms, config="u", parent_metric=m2()), lambda t: t.lorentz_transform(L)),
           ("product", lambda: (T(), T()), lambda p: tensor_product(p[0], p[1], 0, 1)),
           ("lorentz", T, lambda t: t.lorentz_transform(L)), ("subs", T, lambda t: t.subs({A_: B_ + v})), ("simplify", lambda: BaseRelativityTensor([[sp.sin(X) ** 2 + sp.cos(X) ** 2 + v, 0], [X / X ** (2 + v), A_]], syms), lambda t: t.simplify() and t),
           ("lambdify", T, lambda t: [np.array(t.tensor_lambdify()[1](*[1.5 + 0.3 * i + v for i in range(len(t.tensor_lambdify()[0]))]), dtype=float)]),
           ("factory", lambda: None, lambda _: predefined.Kerr(c=1 + v, a=A_) if v else predefined.ReissnerNordstorm(Q=B_))]
    return out


GROUPS = {"num": num_ops, "coords": coord_ops, "tools": tool_ops, "geo": geo_ops, "sym": sym_ops}
ONLY = {"geo": ("integrators", "geodesic")}
AGAINST = ("product",)


def plain(o):
    """comparable form of a result"""
    if hasattr(o, "expr"):
        return ("E", o.expr)
    if hasattr(o, "tensor"):
        return ("T", type(o).__name__, o.config, getattr(o, "name", None), tuple(map(str, getattr(o, "syms", ()))), tuple(map(str, getattr(o, "variables", ()))), np.ravel(np.array(o.tensor().tolist(), dtype=object)).tolist())
    if isinstance(o, (list, tuple)) and any(isinstance(x, (str, list, tuple, np.ndarray)) for x in o):
        return [plain(x) for x in o]
    if isinstance(o, (str, type(None))):
        return o
    return np.array([getattr(x, "value", x) for x in o] if isinstance(o, (list, tuple)) else getattr(o, "value", o), dtype=float)


def agree(p, q):
    if isinstance(p, np.ndarray) and isinstance(q, np.ndarray):
        return p.shape == q.shape and np.allclose(p, q, rtol=1e-11, atol=1e-300, equal_nan=True)
    if isinstance(p, sp.Basic) and isinstance(q, sp.Basic):
        if p == q:
            return True
        pt = {s: sp.Rational(7 + 4 * i, 11 + i) for i, s in enumerate(sorted(p.free_symbols | q.free_symbols, key=str))}
        return abs(complex(sp.N((p - q).subs(pt)))) < 1e-9
    if isinstance(p, (list, tuple)) and type(p) is type(q):
        return len(p) == len(q) and all(agree(a, b) for a, b in zip(p, q))
    return p == q


def cases(tier):
    deep = tier != "quick"
    out = []
    for g in ("num", "coords", "tools"):
        n = [o[0] for o in GROUPS[g](0)]
        out += [dict(name="one:%s:%s" % (g, x), one=g, a=x) for x in n]
        out += [dict(name="two:%s:%s" % (g, x), two=g, a=x, b=x) for x in n]
        if deep:
            out += [dict(name="two:%s:%s:%s" % (g, x, y), two=g, a=x, b=y) for x in n for y in n if x != y]
            out += [dict(name="opcode:%s:%s" % (g, x), one=g, a=x, opcodes=1) for x in n]
    n = [o[0] for o in sym_ops(0)]
    out += [dict(name="one:sym:%s" % x, one="sym", a=x) for x in n]
    out += [dict(name="one:geo:%s" % o[0], one="geo", a=o[0]) for o in geo_ops(0)]
    out += [dict(name="shared:%s" % k, shared=k) for k in ("sch", "kerr", "kn", "user")]
    out += [dict(name="reentrant:%s" % k, reenter=k) for k in ("metric", "perturbation", "rk4", "geodesic")]
    return out


def pick(group, v, label):
    return next(o for o in GROUPS[group](v) if o[0] == label)


def explore(ctx, key, mk0, mk1, two, only=None, opcodes=False, cap=None, visits=2):
    """mk(): a fresh operation. Every schedule with one (two) preemption(s)."""
    n0, alone0 = sched.length(mk0(), only, opcodes, visits)
    n1, alone1 = sched.length(mk1(), only, opcodes, visits)
    want = []
    for w, label in ((alone0, "first"), (alone1, "second")):
        if not ctx.check(w[0] == "value", key + ":alone:" + label, lambda: "%s: the operation fails on its own: %s" % (key, w[1])):
            return
        want.append(plain(w[1]))
    js = [None] if not two else list(range(1, n1 + 1))
    ks = list(range(1, n0 + 1))
    if cap and len(ks) * len(js) > cap:
        st = math.ceil(len(ks) * len(js) / cap)
        js = js[::st]
    for k in ks:
        for j in js:
            r = sched.Run([mk0(), mk1()], (k, j), only, opcodes, visits)
            out = r.go()
            ctx.step(max(1, r.switches))
            ctx.state(key, k, j)
            if r.blocked:
                continue
            for w, o, label in zip(want, out, ("first", "second")):
                good = o[0] == "value" and agree(plain(o[1]), w)
                if not ctx.check(good, key, lambda: "%s: with the second computation started after line %d of the first%s, the %s one gives %s instead of %s"
                                 % (key, k, "" if j is None else " and interrupted after its line %d" % j, label, str(o[1] if o[0] == "raised" else plain(o[1]))[:300], str(w)[:300])):
                    return
            ctx.trace()
    ctx.outcome(key)


def thunk(op):
    _, build, run = op
    o = build()
    return lambda: run(o)


def again(op):
    """the same object for every schedule"""
    f = thunk(op)
    return lambda: f


def run_case(case, ctx):
    if "one" in case:
        g, only = case["one"], ONLY.get(case["one"])
        others = [o[0] for o in GROUPS[g](1)]
        if g == "sym" and ctx.tier == "quick":
            others = [o for o in others if o in AGAINST or o == case["a"]]
        if g == "geo":
            others = [case["a"]]
        op0 = pick(g, 0, case["a"])
        for b in others:
            op1 = pick(g, 1, b)
            fresh = b == case["a"] or g not in ("num", "coords")
            explore(ctx, "one:%s:%s|%s%s" % (g, case["a"], b, ":opcode" if case.get("opcodes") else ""), (lambda: thunk(op0)) if fresh else again(op0), (lambda: thunk(op1)) if fresh else again(op1),
                    False, only, bool(case.get("opcodes")), visits=1 if g in ("sym", "geo") and ctx.tier == "quick" else 2)
        return
    if "two" in case:
        op0, op1 = pick(case["two"], 0, case["a"]), pick(case["two"], 1, case["b"])
        explore(ctx, "two:%s:%s|%s" % (case["two"], case["a"], case["b"]), (lambda: thunk(op0)) if case["two"] == "tools" else again(op0), (lambda: thunk(op1)) if case["two"] == "tools" else again(op1), True, cap=600 if ctx.tier == "quick" else 2500, visits=1)
        return
    if "shared" in case:
        kind = case["shared"]
        ops = [[o for o in num_ops(v) if o[0].startswith(kind + ".") and not o[0].endswith("new")] for v in (0, 1)]
        build = ops[0][0][1]
        for (n0, _, r0), (n1, _, r1) in itertools.product(*ops):
            box = {}

            def first():
                box["g"] = build()
                return lambda: r0(box["g"])

            def second():
                g = box["g"]
                return lambda: r1(g)
            explore(ctx, "shared:%s|%s" % (n0, n1), first, second, False)
        return
    reenter(case["reenter"], ctx)


def reenter(kind, ctx):
    """a function supplied by the user is called by the package and calls the package itself"""
    inner = [o for o in num_ops(1) + coord_ops(1) + tool_ops(1)]
    for label, build, run in inner:
        want_in = plain(run(build()))
        seen = []

        def disturb():
            if seen is not None:
                seen.append(plain(run(build())))
        xs = np.array([0.3, 2.5, 1.1, 0.4])

        def outer(f):
            if kind == "metric":
                g = BaseMetric(coords=sph(), M=1e25 * u.kg, metric_cov=lambda x: (f(), np.diag([1., -1., -x[1] ** 2, -(x[1] * np.sin(x[2])) ** 2]))[1])
                return [g.metric_covariant(xs), g.metric_contravariant(xs)]
            if kind == "perturbation":
                k = make("kerr", 1e25, 0.5, 0)
                k.perturbation = lambda x: (f(), 0.1 * np.eye(4))[1]
                g = BaseMetric(coords=sph(), M=1e25 * u.kg, metric_cov=lambda x: np.diag([1., -1., -1., -1.]), perturbation=k.perturbation)
                return [g.metric_covariant(xs), g.metric_contravariant(xs)]
            if kind == "rk4":
                out = []
                for cls in (RK4naive, RK45):
                    s = cls(fun=lambda t, y: (f(), np.array([y[1], -y[0]]) * t)[1], t0=0.5, y0=np.array([1., 2.]), t_bound=2., stepsize=0.25)
                    s.step()
                    s.step()
                    out += [s.t, *s.y]
                return out
            n = [0]

            def met(x, *p):
                n[0] += 1
                if n[0] % 7 == 1:
                    f()
                return G.wavy(x, *p)
            g = Timelike(metric=met, metric_params=(0.1,), position=[4., 1., .3], momentum=[.1, .2, .3], steps=1, delta=0.2, suppress_warnings=True)
            return [*np.ravel(g.trajectory[1])]
        want = [np.asarray(x, dtype=float) for x in outer(lambda: None)]
        got = [np.asarray(x, dtype=float) for x in outer(disturb)]
        key = "reentrant:%s:%s" % (kind, label)
        ctx.state(key)
        ctx.step(len(seen))
        ctx.trace()
        ctx.outcome(key)
        ctx.check(all(agree(a, b) for a, b in zip(want, got)), key, lambda: "%s: the outer computation gives %s instead of %s" % (key, got, want))
        ctx.check(seen and all(agree(x, want_in) for x in seen), key + ":inner", lambda: "%s: the inner computation gives %s instead of %s" % (key, seen, want_in))


def warm():
    for ops in (coord_ops, tool_ops, num_ops):
        for v in (0, 1):
            for o in ops(v):
                o[2](o[1]())
