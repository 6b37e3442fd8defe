"""Moving indices: every walk through the index configurations gives the same tensor, whatever the path."""
from mc.symb import *

PID = "C07"
LEVEL = "model_checking"
BOUND = {"quick": "every walk of length <= 2 (<= 3 for vectors and rank 2 in dim 2) through the index configurations of vectors, Christoffel symbols, Riemann, "
                  "Ricci, Einstein, Schouten, Weyl and stress-energy tensors over 6 metrics of dims 2-4 with the tensor's own metric; "
                  "every ordered pair of configurations with a foreign metric, with a metric handed over contravariantly, and without one",
         "thorough": "walks of length <= 3 (rank 3) and all metrics of dims 2-4"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]

MET = ["polar2", "null2", "nil3", "sph3", "mink4pm", "stat4"]
CLS = ["vector", "chris", "riem", "ricci", "einstein", "schouten", "weyl", "sem", "generic-ricci"]


def make(kind, spec, g):
    """(tensor, class, numeric reference in its own configuration)"""
    G = geo(spec)
    n = spec.n
    s = spec.syms
    if kind == "vector":
        arr = [s[(i + 1) % n] + i + 1 for i in range(n)]
        pt = spec.point(0)
        ref = np.array([complex(x) for x in curv.evalflat(arr, {}, pt)])
        return GenericVector(arr, s, config="u", parent_metric=g), GenericVector, ref
    if kind == "chris":
        return ChristoffelSymbols.from_metric(g), ChristoffelSymbols, G.ch
    if kind == "riem":
        return RiemannCurvatureTensor.from_metric(g), RiemannCurvatureTensor, G.riem
    if kind == "weyl":
        return WeylTensor.from_metric(g), WeylTensor, (G.weyl if n > 3 else np.zeros((n,) * 4))
    if kind == "ricci":
        return RicciTensor.from_metric(g), RicciTensor, G.ric
    if kind == "einstein":
        return EinsteinTensor.from_metric(g), EinsteinTensor, G.ein
    if kind == "schouten":
        return SchoutenTensor.from_metric(g), SchoutenTensor, G.sch
    # non-symmetric content: an index placed wrongly cannot hide behind a symmetry
    arr = [[s[i] * (j + 1) + (i + 2) * s[j] ** 2 + i for j in range(n)] for i in range(n)]
    ref = np.array([complex(x) for x in curv.evalflat([e for r in arr for e in r], {}, spec.point(0))]).reshape(n, n)
    cls = {"generic-ricci": RicciTensor, "sem": StressEnergyMomentumTensor}[kind]
    return cls(arr, s, config="ll", parent_metric=g), cls, ref


def cases(tier):
    out = []
    mets = MET if tier == "quick" else [s.name for s in SPECS if s.n <= 4 and not s.funcs]
    for m in mets:
        n = lookup(m).n
        for kd in CLS:
            if kd in ("schouten", "weyl") and n < 3:
                continue
            if kd in ("riem", "weyl") and (tier == "quick" and m not in ("polar2", "null2", "nil3", "stat4")):
                continue
            if kd == "weyl" and n == 4 and m != "stat4":
                continue
            if kd in ("riem", "weyl"):
                # one case per target configuration
                tg = configs(4) if n <= 3 or tier == "thorough" else ["llll", "uuuu", "lulu", "uull", "ullu"]
                if n == 3 and tier == "quick":
                    tg = ["llll", "uuuu", "lulu", "uull", "luul", "ullu"]
                for c in tg:
                    out.append({"name": "%s:%s:%s" % (m, kd, c), "spec": m, "kind": kd, "first": c, "depth": 2, "targets": tg})
                few = configs(4) if n == 2 else ["llll", "uuuu", "lulu", "ullu"] if n == 3 else ["llll", "uull"]
                for form in ("ll", "uu", "own") if n > 2 else (None,):
                    out.append({"name": "%s:%s:other:%s" % (m, kd, form), "spec": m, "kind": kd, "other": True, "targets": few, "form": form})
            else:
                out.append({"name": "%s:%s" % (m, kd), "spec": m, "kind": kd, "depth": 2 if (kd == "chris" or n > 2 and kd != "vector") and tier == "quick" else 3})
                out.append({"name": "%s:%s:other" % (m, kd), "spec": m, "kind": kd, "other": True})
    return out


def verify(ctx, T, spec, cls, base, cfg0, cfg, key, gnum=None):
    G = geo(spec)
    ref = (gnum or G).reconfig(base, cfg0, cfg)
    attrs_ok(ctx, T, spec, cls, cfg, key)
    v = value(T, spec)
    sc = max(1.0, float(np.max(np.abs(ref))))
    ctx.outcome(np.round(v, 6).tobytes())
    ctx.check(close(v, ref, scale=sc), key, lambda: "%s: %s" % (key, worst(v, ref)))


def run_case(case, ctx):
    spec = lookup(case["spec"])
    kind = case["kind"]
    g = metric(spec)
    T, cls, base = make(kind, spec, g)
    cfg0 = T.config
    rank = len(cfg0)
    if case.get("other"):
        return other(case, ctx, spec, kind, g, T, cls, base)
    targets = case.get("targets") or configs(rank)
    seen = {}

    def walk(obj, path, depth):
        key = "%s:%s:%s" % (spec.name, kind, ">".join(path))
        ctx.state(key)
        verify(ctx, obj, spec, cls, base, cfg0, path[-1], key)
        ctx.trace()
        if depth == 0:
            return
        nxt = targets if len(path) > 1 or "first" not in case else [case["first"]]
        for c in nxt:
            new = obj.change_config(c)
            ctx.step()
            ctx.check(new.parent_metric is g, key + ":parent", key + ": parent metric lost on the way to " + c)
            walk(new, path + [c], depth - 1)
            # the object we came from has not changed
            ctx.check(obj.config == path[-1], key + ":source", key + ": source configuration changed")
        if depth == 1 or len(path) == 1:
            verify(ctx, obj, spec, cls, base, cfg0, path[-1], key + ":after")

    walk(T, [cfg0], case["depth"])


def other(case, ctx, spec, kind, g, T, cls, base):
    """explicit metrics, missing metrics, invalid configurations"""
    rank = len(T.config)
    s = spec.syms
    n = spec.n
    key0 = "%s:%s" % (spec.name, kind)
    # a foreign metric over the same coordinates
    arr2 = [[(i + 2 if i == j else 0) for j in range(n)] for i in range(n)]
    arr2[0][n - 1] = arr2[n - 1][0] = 1
    arr2[min(1, n - 1)][min(1, n - 1)] = 3 + s[0] ** 2
    sp2 = curv.Spec("foreign", s, arr2, spec.points, spec.params)
    G2 = Geo(sp2, 0)
    foreign = {"ll": MetricTensor(sp2.arr, s), "uu": MetricTensor(sp2.arr, s).inv()}
    cfg0 = T.config
    todo = case.get("targets") or configs(rank)
    form = case.get("form")
    for tag, m2 in foreign.items():
        for c in todo:
            if form not in (None, tag):
                continue
            U = T.change_config(c, metric=m2)
            ctx.step()
            key = "%s:foreign-%s:%s" % (key0, tag, c)
            ctx.state(key)
            verify(ctx, U, spec, cls, base, cfg0, c, key, gnum=G2)
            ctx.check(U.parent_metric is m2, key + ":parent", key + ": parent metric is not the one handed over")
            back = U.change_config(cfg0)
            verify(ctx, back, spec, cls, base, cfg0, cfg0, key + ":back", gnum=G2)
            ctx.trace()
    if form not in (None, "own"):
        return
    # own metric handed over contravariantly
    for c in todo:
        U = T.change_config(c, metric=g.inv())
        verify(ctx, U, spec, cls, base, cfg0, c, "%s:own-uu:%s" % (key0, c))
        ctx.step()
        ctx.trace()
    verify(ctx, T, spec, cls, base, cfg0, cfg0, key0 + ":source")
    # no metric known: refuse, but work with an explicit one
    bare = cls(T.tensor(), s, config=cfg0)
    for c in todo:
        ctx.raises(Exception, lambda: bare.change_config(c), "%s:nometric:%s" % (key0, c), "change of index configuration without a metric")
        U = bare.change_config(c, metric=g)
        verify(ctx, U, spec, cls, base, cfg0, c, "%s:explicit:%s" % (key0, c))
    # invalid configurations
    bad = ["", "l" * (rank + 1), "u" * (rank + 1), "x" * rank, "U" * rank, "l" * (rank - 1) + "d", "u" * (rank - 1) + " "] + (["l" * (rank - 1)] if rank > 1 else [])
    for c in bad:
        ctx.raises(ValueError, lambda: T.change_config(c), "%s:bad:%s" % (key0, c), "configuration %r accepted for rank %d" % (c, rank))
    # the name follows, or stays None
    N = cls(T.tensor(), s, config=cfg0, parent_metric=g, name=None) if kind != "x" else None
    for c in todo[:2]:
        ctx.check(N.change_config(c).name is None, key0 + ":name", key0 + ": nameless tensor got a name")
        nm = cls(T.tensor(), s, config=cfg0, parent_metric=g, name="Q").change_config(c).name
        ctx.check(isinstance(nm, str) and nm.startswith("Q"), key0 + ":name2", key0 + ": name is lost (%r)" % (nm,))
