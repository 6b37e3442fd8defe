"""Copies: objects that were copied, deep-copied or pickled at any point of a history go on exactly like the original, and deep copies are independent of it."""
import copy
import itertools
import pickle
import warnings
import numpy as np
import sympy as sp
import astropy.units as u
from checks import c44
from checks.c44 import agree, plain
from einsteinpy.bodies import Body
from einsteinpy.coordinates import Cartesian
from einsteinpy.geodesic import Nulllike, Timelike
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import RK45, GeodesicIntegrator, RK4naive
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import constants
from einsteinpy.symbolic.helpers import TransformationMatrix
from einsteinpy.utils.dual import DualNumber
from mc import geo as G
from mc.num import *
from mc.symb import *

PID = "C45"
LEVEL = "model_checking"
BOUND = {"quick": "75 kinds of object with one query each: copied in 5 ways (copy, deepcopy, pickle protocols 2, 4, 5), chains of copies of length <= 2, queried before and after; 17 kinds of object that change "
                  "(steppers, integrators, tensors being simplified, differentials being given a metric, shadows): every word of <= 4 letters over their operations and the ways of copying, "
                  "the original compared after every letter as well",
         "thorough": "chains of length 3, words of <= 5 letters (4 for symbolic ones)"}
ASSUMPTIONS = ["Shallow copies of numerical metrics and integrators, which share their parts by design, are asked but not changed.", "Pickling is only asked of objects made from functions that can be pickled; scipy's solver, which keeps a local function, is only deep-copied."]
WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
WAYS.update({"pickle%d" % p: lambda o, p=p: pickle.loads(pickle.dumps(o, protocol=p)) for p in (2, 4, 5)})


def slope(t, y):
    return np.array([[0.1, -1.3], [0.9, -0.2]]) @ y + t


def flat_cov(x):
    return np.diag([1., -1., -1., -1.])


def bump(x):
    return 0.1 * np.ones((4, 4))


def flat():
    return BaseMetric(coords=cart(), M=1e25 * u.kg, metric_cov=flat_cov, perturbation=bump)


def solver_state(s):
    return [s.t, *np.ravel(s.y)]


def machines():
    """kind -> (make, {operation: function that changes the object}, observe, ways); operations whose function returns an object replace it"""
    m2 = lambda: MetricTensor(*c44.SPEC[0], name="m")
    f, prm = G.USER["rindler"]
    q0, p0 = np.array([0.1, 3.0, 1.0, 0.5]), np.array([-1.2, 0.3, 0.1, 0.2])
    every, nop = tuple(WAYS), tuple(w for w in WAYS if not w.startswith("pickle"))
    step = {"step": lambda s: s.step() and None}
    out = {}

    def integ(order, tl=True):
        return lambda: GeodesicIntegrator(metric=f, metric_params=tuple(prm), q0=q0, p0=p0, time_like=tl, steps=9, delta=0.2, order=order, omega=0.7, suppress_warnings=True)
    seen = lambda s: [np.array(s.res_list, dtype=float), [np.array(r, dtype=float) for r in s.results], np.array([s.step_num])] if hasattr(s, "step_num") else [np.array(s.res_list, dtype=float), *[np.array(r, dtype=float) for r in s.results]]
    deep = tuple(w for w in every if w != "copy")
    for order in (2, 4):
        out["integrator%d" % order] = (integ(order), step, seen, deep)
    out["RK4naive"] = (lambda: RK4naive(slope, 0., np.array([1., 2.]), 3., 0.3), step, solver_state, every)
    out["RK4naive.back"] = (lambda: RK4naive(slope, 0., np.array([1., 2.]), -.5, 0.3), step, solver_state, every)
    out["RK45"] = (lambda: RK45(slope, 0., np.array([1., 2.]), 3., 0.3), step, solver_state, nop)
    met = lambda m: [m, m.inv(), m.lower_config(), ChristoffelSymbols.from_metric(m)]
    T = lambda: BaseRelativityTensor([[sp.sin(c44.X) ** 2 + sp.cos(c44.X) ** 2, c44.A_ * c44.Y], [c44.B_, c44.X * c44.Y / c44.X]], c44.SPEC[0][1], config="ul", parent_metric=m2(), variables=(c44.A_, c44.B_), name="T")
    lam = lambda t: [np.array(t.tensor_lambdify()[1](*[1.5 + 0.3 * i for i in range(len(t.tensor_lambdify()[0]))]), dtype=float)]
    out["metric"] = (m2, {"inv": lambda m: m.inv(), "uu": lambda m: m.change_config("uu"), "ll": lambda m: m.change_config("ll"), "subs": lambda m: MetricTensor(m.subs(c44.A_, c44.B_).tensor(), m.syms, config=m.config)}, met, every)
    out["tensor"] = (T, {"simplify": lambda t: t.simplify() and None, "boost": lambda t: t.lorentz_transform(sp.Matrix([[1, 2], [0, 1]]))}, lambda t: [t, *lam(t)], every)
    out["ricci"] = (lambda: RicciTensor.from_metric(m2()), {"uu": lambda t: t.change_config("uu"), "ul": lambda t: t.change_config("ul")}, lambda t: [t, t.parent_metric, t.change_config("lu")], every)
    out["vector"] = (lambda: GenericVector([c44.X, c44.A_ * c44.Y], c44.SPEC[0][1], config="u", parent_metric=m2()), {"l": lambda t: t.change_config("l"), "u": lambda t: t.change_config("u")}, lambda t: [t, *lam(t)], every)
    k = lambda: bl(0., 50., 1., 1., 1., 0.01, 0.02)
    out["differential"] = (k, {"kerr": lambda d: d.velocity(make("kerr", 1e25, 0.5, 0)) and None, "kn": lambda d: d.velocity(make("kn", 1e25, 0.2, 1e9)) and None},
                           lambda d: [[str(d)], np.array(d.position()), np.array([x.si.value for x in (d.v_r, d.v_th, d.v_p)])], every)
    ma = dict(M=1e30 * u.kg, a=0.5 * u.one)
    out["position"] = (lambda: Cartesian(0 * u.s, 1 * u.km, -2 * u.km, 3 * u.km), {"sph": lambda c: c.to_spherical(**ma) if c.system != "Spherical" else c.to_cartesian(**ma), "bl": lambda c: c.to_bl(**ma) if c.system != "BoyerLindquist" else c.to_spherical(**ma)},
                       lambda c: [[str(c), c.system], np.array([getattr(x, "si", x).value if hasattr(x, "si") else x for x in c.values()], dtype=float)], every)
    out["kn"] = (lambda: make("kn", 1e30, 0.5, 1e18, q=0.7), {"q": lambda g: setattr(g, "q", 2 * g.q), "M": lambda g: setattr(g, "a", g.a / 2)},
                 lambda g: [g.metric_covariant(XS), g.christoffels(XS), g.f_vec(0., VEC), g.em_tensor_contravariant(XS)], deep)
    out["flat"] = (flat, {"perturb": lambda g: setattr(g, "perturbation", None)}, lambda g: [g.metric_covariant(XS), g.metric_contravariant(XS)], deep)
    out["dual"] = (lambda: DualNumber(0.7, 1.0), {"square": lambda d: d ** 2 + 1, "sin": lambda d: np.sin(d)}, lambda d: [float(d.val), float(d.deriv)], every)
    out["shadow"] = (lambda: Shadow(1 * u.kg, 20, 30 * u.km), {"smooth": lambda s: s.smoothen(40) and None}, lambda s: [np.array(s.fb1), np.array(s.fb2), np.array(s.intensity), np.array(s.z)], every)
    return out


XS = np.array([0.3, 6e3, 1.1, 0.4])
VEC = np.array([0.3, 6e3, 1.1, 0.4, 1.3, 1e7, 5e-3, 1e-2])


def singles():
    """kind -> (make, query, ways)"""
    every, nop = tuple(WAYS), ("copy", "deepcopy")
    out = {}
    for g in ("num", "coords", "sym"):
        for label, build, run in c44.GROUPS[g](0):
            if build() is None:
                continue
            local = "user" in label or label.startswith("Cartesian.velocity")
            out[g + ":" + label] = (build, run, nop if local else every)
    k = dict(steps=2, delta=0.3, suppress_warnings=True)
    pos, mom = [40., 1.2, 0.3], [0.1, 0.2, 3.8]
    seen = lambda g: [*[np.array(x, dtype=float) for x in g.trajectory], np.array(g.momentum, dtype=float), [g.kind, g.coords, g.metric_name, str(g.metric_params), repr(g)]]
    for cls, m, p in ((Timelike, "Schwarzschild", ()), (Nulllike, "Kerr", (0.9,)), (Timelike, "KerrNewman", (0.3, 0.4)), (Timelike, G.flat, ()), (Nulllike, G.flat, ())):
        for rc in (True, False):
            out["geodesic:%s:%s:%d" % (cls.__name__, m if isinstance(m, str) else m.__name__, rc)] = (lambda cls=cls, m=m, p=p, rc=rc: cls(metric=m, metric_params=p, position=pos, momentum=mom, return_cartesian=rc, **k), seen, every)
    out["embedding"] = (lambda: SchwarzschildEmbedding(1e25 * u.kg), lambda e: [np.ravel(np.array(x)) for x in e.get_values(0.8)], every)
    out["user metric"] = (flat, lambda g: [g.metric_covariant(XS), g.metric_contravariant(XS)], every)
    r, th = sp.symbols("r theta", positive=True)
    tm = lambda: TransformationMatrix.from_new2old(sp.symbols("x y"), (r, th), (2 * r + th, r - 3 * th))
    out["transformation"] = (tm, lambda m: [[str(m.old_coords), str(m.new_coords), str(m.new2old), str(m.old2new), type(m).__name__], [str(x) for x in sp.flatten(m.tolist())], [str(x) for x in sp.flatten(m.inv().tolist())]], every)
    sun = lambda: Body("sun", mass=2e30 * u.kg, R=7e5 * u.km)
    out["body"] = (lambda: Body("b", mass=3e24 * u.kg, q=2 * u.C, R=6 * u.km, coords=sph(0., 3., 1., 1., 2., 1., 1.), parent=sun()),
                   lambda b: [[b.name, b.parent.name, str(b)], np.array([b.mass.value, b.R.value, b.q.value, b.parent.mass.value]), np.array([x.value for x in [*b.pos_vec, *b.vel_vec]])], every)
    for n in ("c", "G", "Cosmo_Const", "eps_0"):
        out["constant:" + n] = (lambda n=n: getattr(constants, n), lambda c, n=n: [[c.name, str(c.descriptive_name), type(c).__name__, str((c ** 2 + 1).subs(constants.get_constant(n), 3))]], every)
    return out


def cases(tier):
    return [dict(name="one:" + k, one=k) for k in singles()] + [dict(name="words:" + k, words=k) for k in machines()]


def form(o):
    if isinstance(o, (list, tuple)) and any(isinstance(x, (str, list, tuple, np.ndarray)) or hasattr(x, "tensor") or hasattr(x, "expr") for x in o):
        return [form(x) for x in o]
    return plain(o)


def quiet(f, o):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return form(f(o))


def run_case(case, ctx):
    deep = ctx.tier != "quick"
    if "one" in case:
        make_, query, ways = singles()[case["one"]]
        want = quiet(query, make_())
        for n in (1, 2, 3) if deep else (1, 2):
            for chain in itertools.product(ways, repeat=n):
                for before in (False, True):
                    key = "%s:%s%s" % (case["one"], "asked>" if before else "", ">".join(chain))
                    o = make_()
                    if before:
                        quiet(query, o)
                    c = o
                    try:
                        for w in chain:
                            c = WAYS[w](c)
                        got = quiet(query, c)
                    except Exception as e:
                        ctx.check(False, key, "%s: %s: %s" % (key, type(e).__name__, e))
                        continue
                    ctx.step(n + 1)
                    ctx.state(key)
                    ctx.trace()
                    ctx.check(type(c) is type(o), key + ":type", lambda: "%s: the copy is a %s" % (key, type(c).__name__))
                    ctx.check(agree(got, want), key, lambda: "%s: the copy answers %s, the original %s" % (key, str(got)[:200], str(want)[:200]))
                    ctx.check(agree(quiet(query, o), want), key + ":original", lambda: "%s: the original answers differently after it was copied" % key)
        return
    make_, ops, see, ways = machines()[case["words"]]
    limit = 5 if deep else 4
    if len(ops) + len(ways) > 6:
        limit -= 1

    def apply(o, letter):
        r = ops[letter](o)
        return o if r is None else r
    cache = {}

    def expected(word):
        """what an object is like after the operations alone"""
        if word not in cache:
            o = make_()
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                for x in word:
                    o = apply(o, x)
            cache[word] = quiet(see, o)
        return cache[word]
    for n in range(1, limit + 1):
        for word in itertools.product((*ops, *ways), repeat=n):
            if word[-1] in ways and n > 1 and word[-2] in ways or not any(x in ways for x in word) or sum(x in ways for x in word) > (3 if deep else 2):
                continue
            key = "%s:%s" % (case["words"], ">".join(word))
            o = make_()
            left = []           # originals left behind by copying, with the operations they had seen
            done = ()
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    for x in word:
                        if x in ways:
                            left.append((o, done, x))
                            o = WAYS[x](o)
                        else:
                            o = apply(o, x)
                            done += (x,)
            except Exception as e:
                ctx.check(False, key, "%s: %s: %s" % (key, type(e).__name__, e))
                continue
            ctx.step(n)
            ctx.state(key)
            ctx.trace()
            got = quiet(see, o)
            ctx.check(agree(got, expected(done)), key, lambda: "%s: %s instead of %s" % (key, str(got)[:250], str(expected(done))[:250]))
            for old, seen_, way in left:
                ctx.check(agree(quiet(see, old), expected(seen_)), key + ":left", lambda: "%s: the original left by %s changed with its copy" % (key, way))
                # the original goes on by itself
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    first = next(iter(ops))
                    apply(old, first)
            ctx.check(agree(quiet(see, o), expected(done)), key + ":apart", lambda: "%s: the copy changed with the original" % key)
            ctx.outcome(case["words"], done)
