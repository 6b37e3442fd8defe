"""Predefined factories: parameters substitute into the symbolic form, limits, independence of calls, find()."""
import itertools
import string
from mc.symb import *
from einsteinpy.symbolic import constants, predefined as pre
import einsteinpy.symbolic as esym

PID = "C14"
LEVEL = "model_checking"
BOUND = {"quick": "every factory x every subset of its parameters given (as int, float, Rational, fresh symbol, expression, negative, zero, assumed-positive symbol, irrational, numpy float, large, defaults exchanged; single parameters and all together also +-1, +-2, 3, +-1/2, and half, double, negative, square, inverse of every parameter's default symbol), positional and "
                  "by keyword; all A,B,A call histories over 20 factories; find() on every substring of every factory name in 3 letter cases",
         "thorough": "additionally all ordered triples of factory calls"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]

# factory -> ordered parameters and their documented default symbols
P = {
    "Minkowski": [("c", constants.c)], "MinkowskiCartesian": [("c", constants.c)], "MinkowskiPolar": [("c", constants.c)],
    "Schwarzschild": [("c", constants.c), ("sch", sp.Symbol("r_s"))],
    "Kerr": [("c", constants.c), ("sch", sp.Symbol("r_s")), ("a", sp.Symbol("a"))],
    "KerrNewman": [("c", constants.c), ("G", constants.G), ("eps_0", constants.eps_0), ("sch", sp.Symbol("r_s")), ("a", sp.Symbol("a")), ("Q", sp.Symbol("Q"))],
    "ReissnerNordstorm": [("c", constants.c), ("G", constants.G), ("eps_0", constants.eps_0), ("sch", sp.Symbol("r_s")), ("Q", sp.Symbol("Q"))],
    "AntiDeSitter": [], "AntiDeSitterStatic": [], "DeSitter": [], "Godel": [], "Davidson": [], "CMetric": [],
    "BertottiKasner": [("c", constants.c), ("k", sp.Symbol("k")), ("lambd", sp.Symbol("l"))],
    "BarriolaVilekin": [("c", constants.c), ("k", sp.Symbol("k"))],
    "Ernst": [("B", sp.Symbol("B")), ("M", sp.Symbol("M"))],
    "JanisNewmanWinicour": [("c", constants.c), ("G", constants.G), ("gam", sp.Symbol("gam")), ("M", sp.Symbol("M"))],
    "BesselGravitationalWave": [("C", sp.Symbol("C"))],
    "AlcubierreWarp": [("x_s", sp.Symbol("x_s")), ("sigma", sp.Symbol("sigma")), ("R", sp.Symbol("R")), ("v", sp.Symbol("v"))],
}
VAL = {"c": 1.1, "G": 0.9, "eps_0": 0.13, "sch": 0.7, "a": 0.4, "Q": 0.6, "k": 0.8, "lambd": 0.55, "B": 0.15, "M": 0.25, "gam": 0.75, "C": 0.35,
       "x_s": 0.2, "sigma": 1.6, "R": 0.9, "v": 0.45, "alpha": 1.7, "omega": 0.6}
COORD = [0.3, 3.7, 0.8, 0.2]
# name of the coordinate symbols
CO = {"Davidson": "t r z phi", "CMetric": "t x y phi", "AntiDeSitter": "t chi theta phi", "BesselGravitationalWave": "t rho phi z",
      "Minkowski": "t x y z", "MinkowskiCartesian": "t x y z", "DeSitter": "t x y z", "Godel": "t x y z", "AlcubierreWarp": "t x y z"}
FUNCS = {}


def cases(tier):
    out = [{"name": "params:" + f, "fac": f} for f in P]
    out += [{"name": "history:" + f, "hist": f, "depth": 2 if tier == "quick" else 3} for f in P]
    out += [{"name": "find:" + f, "find": f} for f in P] + [{"name": "find:misc", "find": None}, {"name": "limits", "limits": 1}]
    return out


def numbers(T, extra):
    """components at the standard point, undefined functions replaced by fixed ones"""
    s = list(T.syms)
    pt = dict(zip(s, COORD))
    arr = curv.flat(T.tensor())
    fr = set()
    for e in arr:
        fr |= sp.sympify(e).free_symbols
    for e in fr:
        if e not in pt:
            if e in extra:
                pt[e] = extra[e]
            elif str(e) in VAL:
                pt[e] = VAL[str(e)]
            else:
                raise KeyError("unexpected symbol %s" % e)
    f, h = sp.Function("f"), sp.Function("h")
    fn = {f(s[1]): s[1] ** 2 + 1, h(s[2]): s[2] ** 3 + 2}
    return ev(arr, (4, 4), fn, pt)


def default_numbers(name, vals=None):
    T = getattr(pre, name)()
    ex = {sym: VAL[p] for p, sym in P[name]}
    for p, v in (vals or {}).items():
        ex[dict(P[name])[p]] = v
    return numbers(T, ex)


def corner(ctx, name, fac, given):
    """small integers and halves, and expressions in the symbols the parameters have by default"""
    half = sp.Rational(1, 2)
    sym, val = dict(P[name]), VAL
    ways = [(str(v), {p: v for p in given}, {p: float(v) for p in given}) for v in (-1, 2, -2, 3, half, -half, -1.0, 2.0, 0.5)]
    if len(given) == 1:
        p = given[0]
        for q in sym:
            for w, f in (("half", lambda x: x / 2), ("twice", lambda x: 2 * x), ("minus", lambda x: -x), ("squared", lambda x: x ** 2), ("inverse", lambda x: 1 / x), ("itself", lambda x: x)):
                ways.append(("%s of %s" % (w, q), {p: f(sym[q])}, {p: f(val[q])}))
    for way, kw, vals in ways:
        key = "%s(%s):=%s" % (name, ",".join(given), way)
        try:
            with np.errstate(all="ignore"):
                ref = default_numbers(name, vals)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if not np.all(np.isfinite(ref)):
            continue            # outside the domain of the metric
        v = numbers(fac(**kw), {s: VAL[p] for p, s in P[name]})
        ctx.step()
        ctx.state(key)
        ctx.trace()
        ctx.check(close(v, ref, 1e-8), key, lambda: "%s: %s" % (key, worst(v, ref)))


def run_case(case, ctx):
    if "fac" in case:
        name = case["fac"]
        fac = getattr(pre, name)
        ctx.check(getattr(esym, name) is fac, name + ":export", name + " is not exported by einsteinpy.symbolic")
        T0 = fac()
        co = sp.symbols(CO.get(name, "t r theta phi"))
        ctx.check(tuple(T0.syms) == tuple(co), name + ":coords", lambda: "%s uses coordinates %s" % (name, T0.syms))
        ctx.check(type(T0) is MetricTensor and T0.config == "ll" and T0.dims == 4, name + ":class", name + " is not a covariant 4-metric")
        g0 = default_numbers(name)
        ctx.check(close(g0, g0.T) and abs(np.linalg.det(g0)) > 1e-9, name + ":sym", name + ": not symmetric and invertible")
        pars = [p for p, _ in P[name]]
        fresh = sp.Symbol("zz")
        for mask in itertools.product((0, 1), repeat=len(pars)):
            given = [p for p, m in zip(pars, mask) if m]
            for kind in ("float", "rational", "symbol", "expr", "int", "neg", "neg-rational", "zero", "assumed", "irrational", "exchanged", "numpy", "large"):
                if not given and kind != "float":
                    continue
                kw, extra, vals = {}, {}, {}
                for q, p in enumerate(given):
                    if kind == "float":
                        kw[p], vals[p] = VAL[p], VAL[p]
                    elif kind == "rational":
                        kw[p] = sp.Rational(str(VAL[p]))
                        vals[p] = VAL[p]
                    elif kind == "neg":
                        kw[p] = vals[p] = -VAL[p]
                    elif kind == "neg-rational":
                        kw[p], vals[p] = -sp.Rational(str(VAL[p])), -VAL[p]
                    elif kind == "zero":
                        kw[p], vals[p] = 0, 0.0
                    elif kind == "assumed":
                        sy = sp.Symbol(str(dict(P[name])[p]), positive=True)
                        kw[p], extra[sy], vals[p] = sy, VAL[p], VAL[p]
                    elif kind == "irrational":
                        kw[p], vals[p] = sp.sqrt(2) * sp.pi / 5, float(np.sqrt(2) * np.pi / 5)
                    elif kind == "exchanged":      # the symbol another parameter has by default
                        o = dict(P[name])[pars[(pars.index(p) + 1) % len(pars)]]
                        kw[p], vals[p] = o, VAL[pars[(pars.index(p) + 1) % len(pars)]]
                    elif kind == "numpy":
                        kw[p], vals[p] = np.float64(VAL[p]), VAL[p]
                    elif kind == "large":
                        kw[p], vals[p] = 1000 + VAL[p], 1000 + VAL[p]
                    elif kind == "int":
                        kw[p], vals[p] = 1, 1.0
                    elif kind == "symbol":
                        sy = sp.Symbol("zz%d" % q)
                        kw[p], extra[sy], vals[p] = sy, VAL[p], VAL[p]
                    else:
                        sy = sp.Symbol("zz%d" % q)
                        kw[p], extra[sy], vals[p] = 2 * sy + 1, (VAL[p] - 1) / 2, VAL[p]
                if "Q" in pars and kind == "int" and "sch" in given and False:
                    continue
                key = "%s(%s):%s" % (name, ",".join(given), kind)
                for p, sym in P[name]:
                    extra.setdefault(sym, VAL[p])
                try:
                    with np.errstate(all="ignore"):
                        ref = default_numbers(name, vals)
                except (ZeroDivisionError, ValueError, OverflowError):
                    ref = None
                if kind in ("neg", "neg-rational", "zero", "large", "irrational", "exchanged") and (ref is None or not np.all(np.isfinite(ref))):
                    continue        # outside the domain of the metric
                T = fac(**kw)
                ctx.step()
                ctx.state(key)
                v = numbers(T, extra)
                ctx.outcome(name, np.round(v, 6).tobytes())
                ctx.check(close(v, ref, 1e-8), key, lambda: "%s: %s" % (key, worst(v, ref)))
                left = {sym for p, sym in P[name] if p in given} & set(T.tensor().free_symbols) if kind != "exchanged" else ()
                ctx.check(not left, key + ":left", lambda: "%s: parameters %s still appear" % (key, left))
                ctx.trace()
            if len(given) == 1 or given == pars and given:
                corner(ctx, name, fac, given)
            if given and given == pars[:len(given)]:
                # positional
                T = fac(*[VAL[p] for p in given])
                v = numbers(T, {sym: VAL[p] for p, sym in P[name]})
                ref = default_numbers(name, {p: VAL[p] for p in given})
                ctx.check(close(v, ref, 1e-8), name + ":positional%d" % len(given), lambda: "%s positional: %s" % (name, worst(v, ref)))
                ctx.step()
        return
    if "hist" in case:
        A = case["hist"]
        fA = getattr(pre, A)
        first = fA()
        vA = default_numbers(A)
        for rest in itertools.product(P, repeat=case["depth"] - 1):
            key = ">".join((A,) + rest)
            ctx.state(key)
            for B in rest:
                fB = getattr(pre, B)
                o = fB(*[7 for _ in P[B]])  # non-default arguments must not stick
                o.variables.append(sp.Symbol("dirty"))
                o.arr = 0 * o.arr
                ctx.step()
            again = fA()
            ctx.check(again is not first, key + ":fresh", key + ": the same object is handed out twice")
            ex = {sym: VAL[p] for p, sym in P[A]}
            ctx.check(close(numbers(again, ex), vA) and close(numbers(first, ex), vA), key, key + ": result depends on earlier calls")
            ctx.check(tuple(again.variables) == tuple(first.variables), key + ":variables", key + ": variables depend on earlier calls")
            ctx.trace()
        return
    if "limits" in case:
        ex = {constants.c: VAL["c"], constants.G: VAL["G"], constants.eps_0: VAL["eps_0"], sp.Symbol("r_s"): VAL["sch"], sp.Symbol("a"): VAL["a"], sp.Symbol("Q"): VAL["Q"]}
        pairs = [
            ("Kerr(a=0)=Schwarzschild", pre.Kerr(a=0), pre.Schwarzschild()), ("KerrNewman(Q=0)=Kerr", pre.KerrNewman(Q=0), pre.Kerr()),
            ("KerrNewman(a=0)=RN", pre.KerrNewman(a=0), pre.ReissnerNordstorm()), ("RN(Q=0)=Schwarzschild", pre.ReissnerNordstorm(Q=0), pre.Schwarzschild()),
            ("Minkowski alias", pre.Minkowski(), pre.MinkowskiCartesian()),
            ("BarriolaVilenkin(k=1)=Minkowski", pre.BarriolaVilekin(k=1), pre.MinkowskiPolar()),
        ]
        for nm, a, b in pairs:
            x, y = numbers(a, ex), numbers(b, ex)
            ctx.state(nm)
            ctx.step(2)
            ctx.check(close(x, y), "limit:" + nm, lambda: "%s: %s" % (nm, worst(x, y)))
            ctx.trace()
        neg = [
            ("JNW(gam=1)=-Schwarzschild", pre.JanisNewmanWinicour(c=2, G=1, gam=1, M=1), pre.Schwarzschild(c=2, sch=sp.Rational(1, 2))),
            ("Ernst(B=0)=-Schwarzschild", pre.Ernst(B=0, M=1), pre.Schwarzschild(c=1, sch=2)),
            ("MinkowskiPolar=-Schwarzschild(0)", pre.MinkowskiPolar(), pre.Schwarzschild(sch=0)),
        ]
        for nm, a, b in neg:
            x, y = numbers(a, ex), -numbers(b, ex)
            ctx.state(nm)
            ctx.step(2)
            ctx.check(close(x, y), "limit:" + nm, lambda: "%s: %s" % (nm, worst(x, y)))
            ctx.trace()
        return
    # find
    names = sorted(P)
    if case["find"]:
        f = case["find"]
        subs = sorted({f[i:j] for i in range(len(f)) for j in range(i + 1, len(f) + 1)})
    else:
        subs = ["", "zzz", "metric", "_", "__", "find", "sitter", " "] + list(string.ascii_lowercase)
    for s in subs:
        for form in (s, s.lower(), s.upper()):
            got = pre.find(form)
            ctx.step()
            ctx.state("find", form)
            want = [n for n in names if form.lower() in n.lower()]
            ctx.outcome(tuple(got))
            ctx.check(sorted(got) == want, "find:" + form, lambda: "find(%r) = %s, expected %s" % (form, got, want))
            ctx.trace()
