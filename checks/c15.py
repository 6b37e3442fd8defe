"""Construction of tensors: every accepted form of the same components is equivalent, every inconsistent one is refused."""
import itertools
from mc.symb import *

PID = "C15"
LEVEL = "model_checking"
BOUND = {"quick": "all classes x ranks 0-4 x all configurations of length 0-5 x 4 container types x dims 2,3; all shapes over {1,2,3} of ranks 1-4 against 1-3 coordinates; invalid values for each argument one at a "
                  "time and in pairs", "thorough": "same as quick plus dim 4"}
ASSUMPTIONS = []

x, y, z, w = sp.symbols("x y z w")
k, b = sp.symbols("k b")
f = sp.Function("f")
ORDER = {GenericVector: 1, MetricTensor: 2, RicciTensor: 2, EinsteinTensor: 2, StressEnergyMomentumTensor: 2, SchoutenTensor: 2, ChristoffelSymbols: 3,
         RiemannCurvatureTensor: 4, WeylTensor: 4}
DEFAULT = {Tensor: "ll", BaseRelativityTensor: "ll", GenericVector: "u", MetricTensor: "ll", RicciTensor: "ll", EinsteinTensor: "ll",
           StressEnergyMomentumTensor: "ll", SchoutenTensor: "ll", ChristoffelSymbols: "ull", RiemannCurvatureTensor: "ulll", WeylTensor: "ulll"}


def cases(tier):
    out = []
    for n in (2, 3) + ((4,) if tier == "thorough" else ()):
        for cls in DEFAULT:
            for r in range(5):
                out.append({"name": "%s:d%d:r%d" % (cls.__name__, n, r), "cls": cls.__name__, "n": n, "rank": r})
    out.append({"name": "scalar", "scalar": 1})
    out.append({"name": "invalid", "invalid": 1})
    out.append({"name": "vars", "vars": 1})
    return out


def nested(vals, n, r):
    if r == 0:
        return vals[0]
    m = len(vals) // n
    return [nested(vals[i * m:(i + 1) * m], n, r - 1) for i in range(n)]


def mk(cls, arr, syms, **kw):
    return cls(arr, **kw) if cls is Tensor else cls(arr, syms, **kw)


def run_case(case, ctx):
    if "cls" in case:
        cls = {c.__name__: c for c in DEFAULT}[case["cls"]]
        n, r = case["n"], case["rank"]
        syms = [x, y, z, w][:n]
        vals = [sp.Integer((i * i + 3) % 7) + (k * syms[i % n] if i % 3 == 0 else 0) for i in range(n ** r)]
        nest = nested(vals, n, r)
        A = sp.Array(vals).reshape(*(n,) * r) if r else sp.Array(vals[0])
        tup = lambda q: tuple(tup(e) for e in q) if isinstance(q, list) else q
        forms = {"list": nest, "array": A}
        if r:
            forms["tuple"] = tup(nest)
            forms["numpy"] = np.array(nest, dtype=object)
        else:
            forms["expr"] = vals[0]
        want = [str(v) for v in vals]
        ok_rank = ORDER.get(cls, None) in (None, r)
        for L in range(6):
            for cfg in configs(L):
                for nm, arr in forms.items():
                    for sy in (syms, tuple(syms)):
                        if sy is not syms and (nm != "list" or cls is Tensor):
                            continue
                        key = "%s:d%d:r%d:%s:%s:%s" % (cls.__name__, n, r, cfg, nm, type(sy).__name__)
                        good = L == r and ok_rank
                        if good:
                            T = mk(cls, arr, sy, config=cfg)
                            ctx.step()
                            ctx.state(key)
                            got = [str(e) for e in curv.flat(T.tensor())]
                            ctx.outcome(tuple(got))
                            ctx.check(got == want, key, lambda: "%s: components %s" % (key, got[:4]))
                            ctx.check(T.config == cfg and T.order == r, key + ":meta", lambda: "%s: config %r order %r" % (key, T.config, T.order))
                            if cls is not Tensor:
                                ctx.check(T.dims == n and tuple(T.syms) == tuple(syms), key + ":dims", key + ": dimension or symbols differ")
                                pm = T.parent_metric
                                ctx.check(pm is (T if cls is MetricTensor else None), key + ":parent", key + ": unexpected parent metric")
                            for idx in list(itertools.product(range(n), repeat=r))[:9] if r else []:
                                q = 0
                                for i in idx:
                                    q = q * n + i
                                ctx.check(str(T[idx]) == want[q], key + ":getitem", key + ": indexing returns another component")
                            ctx.trace()
                        elif nm == "list":
                            ctx.raises(ValueError, lambda: mk(cls, arr, sy, config=cfg), key + ":refused", "%s: rank-%d components with configuration %r" % (cls.__name__, r, cfg))
                            ctx.state(key)
        # default configuration
        if ok_rank and len(DEFAULT[cls]) == r:
            T = mk(cls, nest, syms)
            ctx.check(T.config == DEFAULT[cls], cls.__name__ + ":default", lambda: "%s defaults to %r" % (cls.__name__, T.config))
        # dimension mismatch with the coordinates
        if cls is not Tensor and r > 0 and ok_rank:
            for m in (1, 2, 3, 4):
                if m != n:
                    ctx.raises(ValueError, lambda: cls(nest, [x, y, z, w][:m], config="l" * r), "%s:d%d:r%d:syms%d" % (cls.__name__, n, r, m),
                               "%d-dimensional components with %d coordinates" % (n, m))
        return
    if "scalar" in case:
        for v in (0, 3, -2, 2.5, np.float64(1.5), np.int64(4), sp.Integer(2), sp.Rational(1, 3), x ** 2, k * x):
            for cls in (Tensor, BaseRelativityTensor, RicciScalar):
                kw = {} if cls is RicciScalar else {"config": ""}
                T = mk(cls, v, (x, y), **kw)
                key = "scalar:%s:%s" % (cls.__name__, v)
                ctx.step()
                ctx.state(key)
                ctx.check(T.order == 0 and T.config == "" and T.tensor().shape == (), key + ":rank", key + ": not rank 0")
                ctx.check(abs(complex(sp.sympify(curv.flat(T.tensor())[0] - v).subs({x: 2, k: 3}))) < 1e-12, key, key + ": value changed")
                if cls is RicciScalar:
                    ctx.check(abs(complex(sp.sympify(T.expr - v).subs({x: 2, k: 3}))) < 1e-12, key + ":expr", key + ": expr differs")
                ctx.trace()
        return
    if "invalid" in case:
        ok = [[x, 1], [k, y]]
        for cls in (Tensor, BaseRelativityTensor, MetricTensor, RicciTensor, EinsteinTensor, SchoutenTensor, StressEnergyMomentumTensor):
            for bad in ("ab", None, {1: 2}, {1, 2}, object(), b"xy", lambda q: q):
                ctx.raises(TypeError, lambda: mk(cls, bad, (x, y), config="ll"), "%s:arr:%s" % (cls.__name__, type(bad).__name__), "components given as %s" % type(bad).__name__)
                ctx.state(cls.__name__, "arr", type(bad).__name__)
            for bad in ("xx", "lx", "LL", "ab", "l ", 2, None, ["l", "l"], ("u", "l"), b"ll"):
                ctx.raises(TypeError, lambda: mk(cls, ok, (x, y), config=bad), "%s:config:%r" % (cls.__name__, bad), "configuration %r" % (bad,))
                ctx.state(cls.__name__, "config", repr(bad))
            if cls is Tensor:
                continue
            for bad in ({x, y}, {x: 1, y: 2}, sp.Array([x, y]), "xy", frozenset((x, y))):
                ctx.raises(TypeError, lambda: cls(ok, bad), "%s:syms:%s" % (cls.__name__, type(bad).__name__), "coordinates given as %s" % type(bad).__name__)
                ctx.state(cls.__name__, "syms", type(bad).__name__)
            ctx.trace()
        # every dimension has to be that of the coordinates
        for r in (1, 2, 3, 4):
            for shape in itertools.product((1, 2, 3), repeat=r):
                A = sp.Array([sp.Integer(i) + x for i in range(int(np.prod(shape)))]).reshape(*shape)
                for cls in [c for c in DEFAULT if c is not Tensor and ORDER.get(c, r) == r]:
                    for syms in ((x,), (x, y), (x, y, z)):
                        cfg = "u" * r if cls is ChristoffelSymbols else "l" * r
                        key = "shape:%s:%s:%d" % (cls.__name__, shape, len(syms))
                        ctx.state(key)
                        ctx.step()
                        if set(shape) == {len(syms)}:
                            T = cls(A, syms, config=cfg)
                            ctx.check(T.tensor().shape == shape and T.dims == len(syms), key, key + ": shape or dimension differ")
                        else:
                            ctx.raises(ValueError, lambda: cls(A, syms, config=cfg), key, "%s of shape %s over %d coordinates" % (cls.__name__, shape, len(syms)))
            ctx.trace()
        for arg in ("variables", "functions"):
            for bad in ("k", 3, None, k, {k: 1}, sp.Array([k])):
                ctx.raises(TypeError, lambda: BaseRelativityTensor(ok, (x, y), **{arg: bad}), "%s:%s" % (arg, type(bad).__name__), "%s given as %s" % (arg, type(bad).__name__))
                ctx.state(arg, type(bad).__name__)
        return
    # free variables and functions
    pool = [k, b, sp.Symbol("a1")]
    for mask in itertools.product((0, 1), repeat=3):
        use = [p for p, m in zip(pool, mask) if m]
        for fn in (0, 1, 2):
            e = x + sum((i + 1) * p for i, p in enumerate(use)) + (f(x) if fn else 0) + (sp.Function("g")(y) if fn == 2 else 0)
            for cls, arr, cfg in ((BaseRelativityTensor, [e, y], "u"), (BaseRelativityTensor, [[1, e], [e, y]], "ul"), (MetricTensor, [[e, 0], [0, 1]], "ll"), (GenericVector, [e, 0], "u")):
                T = cls(arr, (x, y), config=cfg)
                key = "vars:%s:%s:%d:%s" % (cls.__name__, cfg, fn, use)
                ctx.step()
                ctx.state(key)
                ctx.check(list(T.variables) == sorted(use, key=lambda q: q.name), key, lambda: "%s: variables %s" % (key, T.variables))
                ctx.check(set(T.functions) == set([f(x)] * (fn > 0) + [sp.Function("g")(y)] * (fn == 2)), key + ":functions", lambda: "%s: functions %s" % (key, T.functions))
                ctx.trace()
            for kind in (list, tuple, set):
                T = BaseRelativityTensor([e, y], (x, y), config="u", variables=kind(pool), functions=kind([f(x)]))
                ctx.check(isinstance(T.variables, list) and set(T.variables) == set(pool) and T.functions == [f(x)], "vars:explicit:%s" % kind.__name__, "explicit variables or functions not kept")
                # two objects do not share their default lists
                T1 = BaseRelativityTensor([1, 2], (x, y), config="u")
                T1.variables.append(k)
                T2 = BaseRelativityTensor([1, 2], (x, y), config="u")
                ctx.check(list(T2.variables) == [], "vars:shared", "objects share their list of variables")
                ctx.step(3)
