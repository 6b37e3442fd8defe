"""subs and simplify: values, metadata, purity, for every rank, class and call form."""
import itertools
from mc.symb import *

PID = "C12"
LEVEL = "model_checking"
BOUND = {"quick": "subs in 4 call forms x all subsets of 3 symbols x 3 kinds of replacement x every class and configuration of rank 0-4; "
                  "simplify with set_self in {default, True, False} x every class and configuration, sequences of <= 3 subs/simplify calls; 16 expressions with branch cuts at 4 points (positive, negative, complex); undefined functions and their derivatives, 12 kinds of replacement, 5 names, dims 1-5",
         "thorough": "sequences of <= 4 calls"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]

x, y, k = sp.symbols("x y k")
w = sp.Symbol("w")
PT = {x: "0.37", y: "1.21", k: "0.8", w: "1.9"}
# simplification must not change values for negative or complex values of the symbols either
PTS = [PT, {x: "-0.37", y: "-1.21", k: "-0.8", w: "-1.9"}, {x: "-1.7", y: "2.3", k: "-0.4", w: "0.6"},
       {x: sp.Rational(-37, 100) + sp.I * sp.Rational(6, 5), y: sp.Rational(-9, 10) - sp.I * sp.Rational(7, 10), k: sp.Rational(4, 5) + sp.I / 3, w: "0.9"}]
SY = (x, y)
KINDS = {0: ["tensor", "base", "rscalar"], 1: ["tensor", "base", "vector"], 2: ["tensor", "base", "metric", "ricci", "einstein", "sem", "schouten"],
         3: ["tensor", "base", "chris"], 4: ["tensor", "base", "riem", "weyl"]}
CLS = {"tensor": Tensor, "base": BaseRelativityTensor, "vector": GenericVector, "ricci": RicciTensor, "einstein": EinsteinTensor,
       "sem": StressEnergyMomentumTensor, "schouten": SchoutenTensor, "chris": ChristoffelSymbols, "riem": RiemannCurvatureTensor,
       "weyl": WeylTensor, "metric": MetricTensor, "rscalar": RicciScalar}


def content(rank):
    """unsimplified, non-symmetric components"""
    out = []
    for q, idx in enumerate(itertools.product(range(2), repeat=rank)):
        e = sp.sin(x) ** 2 + sp.cos(x) ** 2 if q % 3 == 0 else ((x ** 2 - y ** 2) / (x - y) if q % 3 == 1 else k * x * y - k * y * (x + q))
        out.append(e + q * (k + y))
    return out


BRANCHY = [sp.sqrt(x ** 2), sp.log(x ** 2) + sp.log(y), (x ** 2 * y ** 2) ** sp.Rational(1, 4), sp.sqrt(x ** 2 * k) / sp.sqrt(k), sp.log(sp.exp(x)), sp.acos(sp.cos(3 * x)),
           (x ** k) ** 2 * x ** 2, sp.sqrt(1 - sp.cos(y) ** 2), sp.sqrt(x) * sp.sqrt(y), sp.sqrt(y ** 2 + 2 * y + 1), abs(x) * sp.sign(x), sp.exp(sp.log(x) / 2),
           (-x) ** sp.Rational(1, 3), sp.sqrt(1 / x) * sp.sqrt(x), sp.log(x * y) - sp.log(y), (sp.exp(x)) ** k]


def make(kind, cfg):
    r = len(cfg)
    c = content(r)
    arr = sp.Array(c).reshape(*(2,) * r) if r else c[0]
    if kind == "tensor":
        return Tensor(arr, config=cfg, name="Q")
    if kind == "rscalar":
        return RicciScalar(arr, SY)
    if kind == "metric":
        return MetricTensor(arr, SY, config=cfg, name="Q")
    return CLS[kind](arr, SY, config=cfg, name="Q")


def cases(tier):
    out = []
    for r in range(5):
        for kind in KINDS[r]:
            cl = configs(r)
            if kind == "metric":
                cl = ["ll", "uu"]
            for c in cl:
                if r == 4 and kind != "base" and c not in ("ulll", "llll", "uuuu", "lulu"):
                    continue
                out.append({"name": "subs:%s:%s" % (kind, c), "kind": kind, "cfg": c, "op": "subs"})
                out.append({"name": "simplify:%s:%s" % (kind, c), "kind": kind, "cfg": c, "op": "simplify"})
    for kind, c in (("base", "ulul"), ("tensor", "lllu"), ("weyl", "ulll")):
        out.append({"name": "branches:%s:%s" % (kind, c), "kind": kind, "cfg": c, "op": "branches"})
    for kind, c in (("base", "ul"), ("vector", "u"), ("metric", "ll"), ("chris", "ull")):
        out.append({"name": "seq:%s:%s" % (kind, c), "kind": kind, "cfg": c, "op": "seq", "depth": 3 if tier == "quick" else 4})
    for n, ranks in ((1, (0, 1, 2)), (2, (0, 1, 2, 3)), (3, (1, 2)), (4, (1, 2)), (5, (1,))):
        out += [{"name": "extra:d%d:rank%d" % (n, r), "op": "extra", "n": n, "rank": r} for r in ranks]
    return out


F1, F2 = sp.Function("F"), sp.Function("H")


def extra(case, ctx):
    """undefined functions, other names (and none), other dimensions, dictionaries with several keys, positional and keyword simplify"""
    n, rank = case["n"], case["rank"]
    X = sp.symbols("x0:%d" % n)
    u, z = X[0], X[-1]
    fun = {F1(u): u ** 2 + 1, F2(u, z): 3 * u - z / 2 + u * z}
    pool = [F1(u) * sp.sin(u) ** 2 + F1(u) * sp.cos(u) ** 2, k * F2(u, z) + k, F1(u).diff(u) * z, (u ** 2 - k ** 2) / (u - k), sp.Integer(0), sp.Integer(7),
            k * y * F1(u) - y * (k * F1(u) + u), F2(u, z).diff(u) + F2(u, z).diff(z) if n > 1 else F1(u).diff(u, 2), sp.Rational(1, 3) * z, sp.pi]
    shape = (n,) * rank
    comps = [pool[(3 * q + q // 10) % 10] for q in range(n ** rank)]
    pt = {q: str(0.3 + 0.4 * i) for i, q in enumerate(X)}
    pt.update({k: "1.7", y: "0.6", w: "0.9"})
    subs = {"F=expr": [(F1(u), u ** 3 + k)], "F=const": [(F1(u), sp.Integer(2))], "F=H": [(F1(u), F2(u, z))], "H=": [(F2(u, z), u * z ** 2)], "k=k+u": [(k, k + u)],
            "k,y": [(k, w), (y, sp.Rational(2, 3))], "k=0": [(k, 0)], "k=float": [(k, 0.25)], "k=npint": [(k, np.int64(3))], "str": [("k", 5)], "expr": [(k * y, w)], "none": [(w, 1)]}
    M = ["tensor", "base"] if rank not in (1,) else ["tensor", "base", "vector"]
    for kind in M:
        for cfg in configs(rank):
            for name in (None, "", "Q", "Metric", "a__lt"):
                arr = sp.Array(comps).reshape(*shape) if rank else comps[0]
                T = Tensor(arr, config=cfg, name=name) if kind == "tensor" else (BaseRelativityTensor if kind == "base" else GenericVector)(arr, X, config=cfg, name=name)
                if name in (None, "Q"):
                    for sn, sub in subs.items():
                        want = [sp.sympify(e).subs(sub) for e in comps]
                        ref = np.array([complex(q) for q in curv.evalflat(want, fun, pt)]).reshape(shape)
                        for form, args in (("list", (sub,)), ("dict", (dict(sub),))) + ((("two", sub[0]),) if len(sub) == 1 else ()):
                            key = "extra:%s:%s:d%d:%s:%s:%s" % (kind, cfg, n, name, sn, form)
                            U = T.subs(*args)
                            ctx.step()
                            ctx.state(key)
                            v = ev(U.tensor(), shape, fun, pt)
                            ctx.outcome(np.round(v, 6).tobytes())
                            ctx.check(close(v, ref), key, lambda: "%s: %s" % (key, worst(v, ref)))
                            ctx.check(U.config == cfg and U.order == rank and U.name == name, key + ":meta", lambda: "%s: %r %r" % (key, U.config, U.name))
                            ctx.check(list(curv.flat(T.tensor())) == [sp.sympify(e) for e in comps], key + ":pure", key + ": source modified")
                            ctx.trace()
                ref = np.array([complex(q) for q in curv.evalflat(comps, fun, pt)]).reshape(shape)
                for form in ("copy", "self"):
                    key = "extra:%s:%s:d%d:%s:simplify-%s" % (kind, cfg, n, name, form)
                    R = T.simplify(False) if form == "copy" else T.simplify(True)
                    ctx.step()
                    ctx.state(key)
                    v = ev(R, shape, fun, pt)
                    ctx.check(tuple(getattr(R, "shape", ())) == shape and close(v, ref), key, lambda: "%s: %s" % (key, worst(v, ref)))
                    v2 = ev(T.tensor(), shape, fun, pt)
                    ctx.check(close(v2, ref) and T.name == name and T.config == cfg, key + ":keeps", key + ": the object changed")
                    ctx.trace()


def nums(exprs, sub, pt):
    ex = [sp.sympify(e).subs(sub, simultaneous=False) if sub else sp.sympify(e) for e in exprs]
    return np.array([complex(q) for q in curv.evalflat(ex, {}, pt)])


def run_case(case, ctx):
    if case["op"] == "extra":
        return extra(case, ctx)
    kind, cfg = case["kind"], case["cfg"]
    r = len(cfg)
    raw = content(r)
    shape = (2,) * r
    key0 = "%s:%s" % (kind, cfg)

    def num(arr):
        return ev(arr, shape, {}, PT)

    if case["op"] == "branches":
        raw = BRANCHY
        refs = [curv.evalflat([sp.sympify(e) for e in raw], {}, pt) for pt in PTS]
        for mode in (False, True):
            arr = sp.Array(raw).reshape(*shape)
            T = Tensor(arr, config=cfg, name="Q") if kind == "tensor" else CLS[kind](arr, SY, config=cfg, name="Q")
            R = curv.flat(T.simplify(set_self=mode))
            S = curv.flat(T.simplify(set_self=mode))
            ctx.step(2)
            for n, (pt, ref) in enumerate(zip(PTS, refs)):
                for q, (e, f, z) in enumerate(zip(R, S, ref)):
                    key = "%s:%s:simplify-%s:point%d" % (key0, raw[q], mode, n)
                    v1, v2 = (complex(curv.evalflat([g], {}, pt)[0]) for g in (e, f))
                    ctx.state(key)
                    ctx.check(abs(v1 - complex(z)) <= 1e-9 * max(1, abs(complex(z))), key, lambda: "%s: %s became %s, %s instead of %s" % (key, raw[q], e, v1, z))
                    ctx.check(abs(v2 - complex(z)) <= 1e-9 * max(1, abs(complex(z))), key + ":twice", lambda: "%s: %s became %s" % (key, raw[q], f))
                ctx.trace()
        return
    if case["op"] == "subs":
        T = make(kind, cfg)
        before = str(T.tensor())
        for sub in ([(k, sp.Integer(3))], [(x, sp.Rational(1, 2))], [(k, w ** 2)], [(x, y + w), (k, w)], [(k, x)], [(k, 0), (y, 2 * y)], [(x, w), (w, k)]):
            forms = {"list": (sub,), "tuple": (tuple(sub),)}
            if len(sub) == 1:
                forms["two"] = sub[0]
                forms["dict"] = (dict(sub),)
            e2 = [sp.sympify(e) for e in raw]
            for o, nw in sub:
                e2 = [e.subs(o, nw) for e in e2]
            ref = np.array([complex(q) for q in curv.evalflat(e2, {}, PT)]).reshape(shape)
            for fn, args in forms.items():
                key = "%s:%s:%s" % (key0, sub, fn)
                U = T.subs(*args)
                ctx.step()
                ctx.state(key)
                ctx.check(isinstance(U, Tensor), key + ":class", key + ": not a Tensor")
                ctx.check(U.config == cfg and U.order == r, key + ":config", lambda: "%s: configuration %r" % (key, U.config))
                ctx.check(U.name == T.name, key + ":name", lambda: "%s: name %r" % (key, U.name))
                v = num(U.tensor())
                ctx.outcome(np.round(v, 6).tobytes())
                ctx.check(close(v, ref), key, lambda: "%s: %s" % (key, worst(v, ref)))
                ctx.check(str(T.tensor()) == before and T.config == cfg, key + ":pure", key + ": source modified")
                ctx.trace()
        return
    ref = np.array([complex(q) for q in curv.evalflat(raw, {}, PT)]).reshape(shape)
    if case["op"] == "simplify":
        for mode in ("default", True, False):
            T = make(kind, cfg)
            before = str(T.tensor())
            key = "%s:simplify-%s" % (key0, mode)
            R = T.simplify() if mode == "default" else T.simplify(set_self=mode)
            ctx.step()
            ctx.state(key)
            shp = getattr(R, "shape", ())
            ctx.check(tuple(shp) == shape, key + ":shape", lambda: "%s: result has shape %s" % (key, shp))
            ctx.check(close(num(R), ref), key, lambda: "%s: value changed: %s" % (key, worst(num(R), ref)))
            if mode is False:
                ctx.check(str(T.tensor()) == before, key + ":pure", key + ": source modified although set_self is False")
            else:
                ctx.check(str(sp.sympify(curv.flat(T.tensor())[0])) == str(curv.flat(R)[0]), key + ":self", key + ": stored components are not the simplified ones")
                ops = lambda A: sum(sp.count_ops(e) for e in curv.flat(A))
                ctx.check(ops(T.tensor()) < sum(sp.count_ops(e) for e in raw), key + ":simpler", key + ": nothing was simplified")
            ctx.check(close(num(T.tensor()), ref) and T.config == cfg and T.order == r, key + ":keeps", key + ": object changed value or configuration")
            v2 = T.simplify(set_self=False)
            ctx.check(close(num(v2), ref), key + ":twice", key + ": simplifying twice changes the value")
            ctx.trace()
        return
    subs = {"k=3": (k, sp.Integer(3)), "y=k": (y, k)}
    ops = ["simplify", "simplify-copy"] + list(subs)
    for n in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=n):
            T = make(kind, cfg)
            cur = [sp.sympify(e) for e in raw]
            key = "%s:%s" % (key0, ">".join(seq))
            live = []
            for op in seq:
                ctx.step()
                if op == "simplify":
                    T.simplify()
                elif op == "simplify-copy":
                    R = T.simplify(set_self=False)
                    want = np.array([complex(q) for q in curv.evalflat(cur, {}, PT)]).reshape(shape)
                    ctx.check(close(num(R), want), key + ":copy", key + ": simplified copy differs")
                else:
                    live.append((T, list(cur)))
                    T = T.subs(*subs[op])
                    cur = [e.subs(*subs[op]) for e in cur]
            live.append((T, cur))
            for U, c in live:
                want = np.array([complex(q) for q in curv.evalflat(c, {}, PT)]).reshape(shape)
                v = num(U.tensor())
                ctx.check(close(v, want) and U.config == cfg and U.name == "Q", key, lambda: "%s: %s" % (key, worst(v, want)))
            ctx.state(key)
            ctx.trace()
