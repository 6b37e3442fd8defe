"""tensor_product: component rule, contraction over every admissible index pair, metadata."""
import itertools
from mc.symb import *

PID = "C09"
LEVEL = "model_checking"
BOUND = {"quick": "every ordered pair of tensors of ranks 0-3 in every index configuration, uncontracted and contracted over every "
                  "index pair (total rank <= 4), dims 2 and 3 (and 1 up to rank 2 each); 9 x 9 objects of the derived classes in dim 4",
         "thorough": "total rank <= 6 in dim 2, <= 5 in dim 3, <= 4 in dim 4"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]

p_, q_, s_ = sp.symbols("p q s")
ff, hh = sp.Function("F"), sp.Function("H")
PT = {p_: "0.37", q_: "-1.21", s_: "2.3"}


def comps(n, rank, which, syms):
    """components without any symmetry; which = 0/1 picks different parameters so that factors never coincide"""
    par = [p_, q_][which]
    out = {}
    for idx in itertools.product(range(n), repeat=rank):
        e = sp.Integer(1 + 2 * which)
        for k, i in enumerate(idx):
            e = e * (k + 2) + (i + 1) * (i + k + 1) * syms[(i + k + which) % n] ** (1 + (k + which) % 2)
        out[idx] = e + par * (sum((k + 1) * (i + 1) for k, i in enumerate(idx)) + 1)
    return out


def nested(d, n, rank, pre=()):
    if len(pre) == rank:
        return d[pre]
    return [nested(d, n, rank, pre + (i,)) for i in range(n)]


def cases(tier):
    lim = {2: 4, 3: 4} if tier == "quick" else {2: 6, 3: 5, 4: 4}
    out = []
    for n, mx in lim.items():
        for r1 in range(4):
            for r2 in range(4):
                if r1 + r2 > mx:
                    continue
                for c1 in configs(r1):
                    out.append({"name": "d%d:%s x rank%d" % (n, c1 or "scalar", r2), "n": n, "c1": c1, "r2": r2})
    return out + [{"name": "kinds:%s" % a, "kinds": a} for a in KINDS] + [{"name": "d1:%s x rank%d" % (c or "scalar", r), "n": 1, "c1": c, "r2": r} for c in ("", "u", "l", "ul") for r in (0, 1, 2)]


KINDS = ("metric", "inverse", "up", "down", "ricci", "ricci-ul", "chris", "scalar", "eps")


def factor(kind, g, x):
    a = sp.Symbol("a")
    n = len(x)
    if kind == "metric":
        return g
    if kind == "inverse":
        return g.inv()
    if kind in ("up", "down"):
        return GenericVector([x[i] + i for i in range(n)] if kind == "up" else [a * x[0]] + [sp.Integer(i) for i in range(1, n)], x, config="u" if kind == "up" else "l", parent_metric=g)
    if kind == "ricci":
        return RicciTensor([[x[i] if i == j else (i + 2 * j) % 3 for j in range(n)] for i in range(n)], x, parent_metric=g)
    if kind == "ricci-ul":
        return RicciTensor([[a if i == j else (2 * i + j) % 3 for j in range(n)] for i in range(n)], x, config="ul", parent_metric=g)
    if kind == "chris":
        return ChristoffelSymbols.from_metric(g)
    if kind == "scalar":
        return RicciScalar(a * x[1], x, parent_metric=g)
    return BaseRelativityTensor([[0, 1, 0, 0], [-1, 0, x[1], 0], [0, -x[1], 0, a], [0, 0, -a, 0]], x, config="uu", name="eps")


def kinds(ctx, first):
    """tensors of the derived classes as factors, an object multiplied with itself, dimension 4"""
    x = sp.symbols("t r theta phi")
    a = sp.Symbol("a")
    pt = {x[0]: "0.4", x[1]: "1.3", x[2]: "0.8", x[3]: "0.2", a: "1.9"}
    g = MetricTensor([[-1, x[1], 0, 0], [x[1], 2, 0, 0], [0, 0, x[1] ** 2, 0], [0, 0, 0, a * x[2] ** 2]], x)
    fs = {k: factor(k, g, x) for k in KINDS}
    val = lambda T: ev(T.tensor(), (4,) * len(T.config), {}, pt)
    A = fs[first]
    for second in KINDS:
        B = fs[second]
        pairs = [(None, None)]
        if len(A.config) + len(B.config) <= 4 or "chris" in (first, second) and len(A.config) + len(B.config) <= 5:
            pairs += [(i, j) for i in range(len(A.config)) for j in range(len(B.config))]
        else:
            continue
        for i, j in pairs:
            key = "kinds:%s*%s:%s,%s" % (first, second, i, j)
            if i is not None and A.config[i] == B.config[j]:
                ctx.raises(ValueError, lambda: tensor_product(A, B, i, j), key, "contraction of two %s indices" % A.config[i])
                continue
            if i is None:
                T, ref, cfg = tensor_product(A, B), np.multiply.outer(val(A), val(B)), A.config + B.config
            else:
                T, ref = tensor_product(A, B, i, j), np.tensordot(val(A), val(B), axes=(i, j))
                cfg = A.config[:i] + A.config[i + 1:] + B.config[:j] + B.config[j + 1:]
            ctx.step()
            ctx.state(key)
            ctx.check(T.config == cfg and T.order == len(cfg) and tuple(T.syms) == x, key + ":meta", lambda: "%s: config %r, expected %r" % (key, T.config, cfg))
            ctx.check(T.parent_metric is A.parent_metric, key + ":parent", key + ": metric of the first factor is lost")
            w = ev(T.tensor(), (4,) * len(cfg), {}, pt)
            ctx.outcome(np.round(w, 6).tobytes())
            ctx.check(close(w, ref), key, lambda: "%s: %s" % (key, worst(w, ref)))
            ctx.trace()


def build(n, cfg, which, syms, g):
    d = comps(n, len(cfg), which, syms)
    arr = nested(d, n, len(cfg))
    return BaseRelativityTensor(arr, syms, config=cfg, parent_metric=g), d


def run_case(case, ctx):
    if "kinds" in case:
        return kinds(ctx, case["kinds"])
    n, c1, r2 = case["n"], case["c1"], case["r2"]
    syms = list(sp.symbols("x0:%d" % n))
    g = MetricTensor([[(2 if i == j else 0) for j in range(n)] for i in range(n)], syms)
    pt = dict(PT)
    pt.update({x: str(0.3 + 0.4 * i) for i, x in enumerate(syms)})
    r1 = len(c1)
    A, dA = build(n, c1, 0, syms, g)
    vA = np.array([complex(x) for x in curv.evalflat([dA[i] for i in itertools.product(range(n), repeat=r1)], {}, pt)]).reshape((n,) * r1)
    for c2 in configs(r2):
        B, dB = build(n, c2, 1, syms, None)
        vB = np.array([complex(x) for x in curv.evalflat([dB[i] for i in itertools.product(range(n), repeat=r2)], {}, pt)]).reshape((n,) * r2)
        snapshot = (str(A.tensor()), str(B.tensor()), A.config, B.config)

        def verify(T, ref, cfg, key):
            ctx.step()
            ctx.state(key)
            ctx.check(T.config == cfg, key + ":config", lambda: "%s: config %r, expected %r" % (key, T.config, cfg))
            ctx.check(T.order == len(cfg), key + ":order", key + ": wrong order")
            ctx.check(list(T.syms) == syms, key + ":syms", key + ": coordinate symbols differ")
            ctx.check(T.parent_metric is g, key + ":parent", key + ": parent metric of the first factor is lost")
            v = ev(T.tensor(), (n,) * len(cfg), {}, pt)
            ctx.outcome(np.round(v, 6).tobytes())
            ctx.check(close(v, ref), key, lambda: "%s: %s" % (key, worst(v, ref)))
            free = T.tensor().free_symbols - set(syms)
            ctx.check(free <= set(T.variables), key + ":variables", lambda: "%s: free symbols %s not in variables %s" % (key, free, T.variables))
            args, f = T.tensor_lambdify()
            num = np.array(f(*[float(pt[a]) for a in args]), dtype=complex)
            ctx.check(close(num, ref), key + ":lambdify", lambda: "%s: lambdified product differs" % key)
            ctx.trace()

        key = "d%d:%s*%s" % (n, c1, c2)
        verify(tensor_product(A, B), np.multiply.outer(vA, vB), c1 + c2, key)
        for i in range(r1):
            for j in range(r2):
                k2 = "%s:%d,%d" % (key, i, j)
                if c1[i] == c2[j]:
                    ctx.raises(ValueError, lambda: tensor_product(A, B, i, j), k2 + ":refused", "contraction of two %s indices" % c1[i])
                    ctx.raises(ValueError, lambda: tensor_product(A, B, i=i, j=j), k2 + ":refused-kw", "contraction of two %s indices" % c1[i])
                    continue
                ref = np.tensordot(vA, vB, axes=(i, j))
                cfg = c1[:i] + c1[i + 1:] + c2[:j] + c2[j + 1:]
                verify(tensor_product(A, B, i, j), ref, cfg, k2)
        ctx.check(snapshot == (str(A.tensor()), str(B.tensor()), A.config, B.config), key + ":pure", key + ": a factor was modified")
    # functions of both factors survive
    X = BaseRelativityTensor([ff(syms[0])] * n, syms, config="u")
    Y = BaseRelativityTensor([hh(syms[-1])] * n, syms, config="l")
    for T in (tensor_product(X, Y), tensor_product(X, Y, 0, 0), tensor_product(Y, X)):
        got = {str(getattr(e, "func", e)) for e in T.functions}
        ctx.check({"F", "H"} <= got, "functions", lambda: "functions of the product are %s" % (T.functions,))
