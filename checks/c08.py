"""MetricTensor as a state machine: inverse, covariant form and configuration after any history of calls."""
import itertools
from mc.symb import *
from einsteinpy.symbolic import predefined as pre

PID = "C08"
LEVEL = "model_checking"
BOUND = {"quick": "every sequence of <= 3 (dims 4, 5: <= 2) operations from {inv, change_config(uu), change_config(ll), lower_config, simplify, "
                  "christoffel, lambdify} on 8 metrics (dims 2-5) given covariantly and contravariantly; two live objects interleaved; "
                  "mixed configurations rejected for all named metrics",
         "thorough": "all named metrics, sequences one operation longer"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]
OPS = ["inv", "uu", "ll", "lower", "simplify", "chris", "lambdify"]
MET = ["polar2", "skew2", "null2", "nil3", "schw4", "stat4", "ppwave4", "kk5"]


def cases(tier):
    mets = MET if tier == "quick" else [s.name for s in SPECS]
    out = []
    for m in mets:
        for form in ("ll", "uu"):
            for op in OPS:
                out.append({"name": "%s:%s:%s" % (m, form, op), "spec": m, "form": form, "first": op, "depth": (3 if lookup(m).n <= 3 else 2) + (tier != "quick")})
    for s in SPECS:
        out.append({"name": "static:" + s.name, "spec": s.name})
    for p, q in same_coords_pairs(mets):
        out.append({"name": "pair:%s:%s" % (p, q), "pair": [p, q]})
    return out


def ref(spec, cfg):
    G = geo(spec)
    return G.g if cfg == "ll" else G.gi


def verify(ctx, m, spec, cfg, key):
    attrs_ok(ctx, m, spec, MetricTensor, cfg, key)
    v = value(m, spec)
    r = ref(spec, cfg)
    ctx.outcome(np.round(v, 6).tobytes())
    ctx.check(close(v, r), key, lambda: "%s: %s" % (key, worst(v, r)))
    ctx.check(isinstance(m.name, str) and m.name.startswith(spec.name), key + ":name", lambda: "%s: the metric %r is called %r" % (key, spec.name, m.name))
    ctx.check(m.parent_metric is m, key + ":parent", key + ": a metric is not its own parent metric")


def flip(c):
    return "uu" if c == "ll" else "ll"


def apply(ctx, spec, m, cfg, op, key):
    """-> (object, configuration the model predicts)"""
    ctx.step()
    if op == "inv":
        return m.inv(), flip(cfg)
    if op == "uu":
        return m.change_config("uu"), "uu"
    if op == "ll":
        return m.change_config("ll"), "ll"
    if op == "lower":
        return m.lower_config(), "ll"
    if op == "simplify":
        r = m.simplify()
        v = ev(r, (spec.n,) * 2, spec.funcs, spec.point(0))
        ctx.check(close(v, ref(spec, cfg)), key + ":simplify", lambda: "%s: simplified components differ: %s" % (key, worst(v, ref(spec, cfg))))
        return m, cfg
    if op == "chris":
        c = ChristoffelSymbols.from_metric(m)
        v = value(c, spec)
        ctx.check(close(v, geo(spec).ch), key + ":chris", lambda: "%s: Christoffel symbols differ: %s" % (key, worst(v, geo(spec).ch)))
        return m, cfg
    if op == "lambdify":
        if not spec.funcs:
            args, f = m.tensor_lambdify()
            pt = spec.point(0)
            v = np.array(f(*[float(pt[a]) for a in args]), dtype=complex)
            ctx.check(close(v, ref(spec, cfg)), key + ":lambdify", lambda: "%s: lambdified components differ" % key)
        return m, cfg
    raise KeyError(op)


def run_case(case, ctx):
    if "pair" in case:
        p, q = (lookup(x) for x in case["pair"])
        for fp, fq in itertools.product(("ll", "uu"), repeat=2):
            a, b = metric(p, fp), metric(q, fq)
            for ops in itertools.product(("inv", "lower", "uu"), repeat=2):
                x, cx = apply(ctx, p, a, fp, ops[0], "pair")
                y, cy = apply(ctx, q, b, fq, ops[1], "pair")
                key = "pair:%s-%s:%s-%s:%s" % (p.name, q.name, fp, fq, "".join(ops))
                ctx.state(key)
                verify(ctx, x, p, cx, key + ":x")
                verify(ctx, y, q, cy, key + ":y")
                verify(ctx, a, p, fp, key + ":a")
                verify(ctx, b, q, fq, key + ":b")
                ctx.trace()
        return
    spec = lookup(case["spec"])
    if "first" not in case:
        m = metric(spec)
        for c in ("ul", "lu", "u", "l", "lll", "uuu", "xx", ""):
            for mm, f in ((m, "ll"), (m.inv(), "uu")):
                ctx.raises(ValueError, lambda: mm.change_config(c), "%s:%s->%s" % (spec.name, f, c), "metric configuration %r" % c)
                verify(ctx, mm, spec, f, "%s:%s:after-%s" % (spec.name, f, c))
            ctx.state(spec.name, c)
        prod = np.einsum("ab,bc->ac", value(m, spec), value(m.inv(), spec))
        ctx.check(close(prod, np.eye(spec.n), scale=1.0), spec.name + ":identity", spec.name + ": g g^-1 is not the identity")
        ctx.check(m.lower_config() is m, spec.name + ":lower", "covariant form of a covariant metric is another object")
        for c in ("u", "l", "ull", "", "lll"):
            ctx.raises(ValueError, lambda: MetricTensor(spec.arr, spec.syms, config=c), spec.name + ":ctor:" + c, "metric with configuration %r" % c)
        ctx.trace()
        return
    form = case["form"]

    def walk(hist, obj, cfg, live):
        key = "%s:%s:%s" % (spec.name, form, ">".join(hist))
        ctx.state(key)
        verify(ctx, obj, spec, cfg, key)
        for o, c, lab in live:
            verify(ctx, o, spec, c, key + ":live-" + lab)
        ctx.trace()

    for n in range(1, case["depth"] + 1):
        for rest in itertools.product(OPS, repeat=n - 1):
            hist = (case["first"],) + rest
            obj, cfg = metric(spec, form), form
            live = [(obj, cfg, "0")]
            for i, op in enumerate(hist):
                obj, cfg = apply(ctx, spec, obj, cfg, op, "%s:%s:%s" % (spec.name, form, ">".join(hist[:i + 1])))
                live.append((obj, cfg, str(i + 1)))
            walk(hist, obj, cfg, live)
