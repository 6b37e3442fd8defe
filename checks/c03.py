"""Ricci tensor and scalar: traces of Riemann, independent of the construction route and of index placement."""
from mc.symb import *

PID = "C03"
LEVEL = "model_checking"
BOUND = {"quick": "every construction route (metric, Christoffel symbols in 8 configurations, Riemann in 16, Ricci in 4) "
                  "for 7 metrics of dims 2,3 and the lead configurations for all other metrics (dims 2-5); every eta + one entry in "
                  "dims 2,3,4; every 2x2 metric over 4 entries",
         "thorough": "all configurations in every dimension; two-entry metrics in dims 2,3"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]


def cases(tier):
    out = []
    for s in SPECS:
        full = s.name in FULLQ or tier == "thorough"
        out.append({"name": "chris:" + s.name, "spec": s.name, "what": "chris", "full": full})
        for part in range(4 if full else 1):
            out.append({"name": "riem%d:%s" % (part, s.name), "spec": s.name, "what": "riem", "full": full, "part": part})
        out.append({"name": "ricci:" + s.name, "spec": s.name, "what": "ricci", "full": full})
    names = [s.name for s in perturbed(2) + perturbed(3) + perturbed(4) + (small2() if tier == "thorough" else small2q())]
    if tier == "thorough":
        names += [s.name for s in perturbed2(2) + perturbed2(3)]
    for i in range(0, len(names), 6):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 6]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS]
    return out


def ric(ctx, spec, T, label):
    key = "%s:ricci:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, "ricci", label)
    attrs_ok(ctx, T, spec, RicciTensor, "ll", key)
    for k in range(len(spec.points)):
        cmpval(ctx, T, spec, k, geo(spec, k).ric, key)
    ctx.trace()


def sca(ctx, spec, T, label):
    key = "%s:scalar:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, "scalar", label)
    ctx.check(type(T) is RicciScalar and T.config == "" and T.order == 0, key + ":type", key + ": not a rank-0 scalar")
    for k in range(len(spec.points)):
        v = value(T, spec, k)
        e = ev([T.expr], (), spec.funcs, spec.point(k))
        ref = geo(spec, k).R
        sc = max(1.0, abs(ref))
        ctx.check(close(v, ref, scale=sc), key, lambda: "%s: %s, expected %s" % (key, v, ref))
        ctx.check(close(e, ref, scale=sc), key + ":expr", lambda: "%s: expr is %s, expected %s" % (key, e, ref))
        ctx.outcome("R", np.round(np.real(v), 6).tobytes())
    ctx.trace()


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: (ric(ctx, q, RicciTensor.from_metric(g), lb), sca(ctx, q, RicciScalar.from_metric(g), lb)))
    if "enum" in case:
        for nm in case["enum"]:
            spec = lookup(nm)
            g = metric(spec)
            T = RicciTensor.from_metric(g)
            ric(ctx, spec, T, "metric")
            sca(ctx, spec, RicciScalar.from_riccitensor(T), "ricci")
        return
    spec = lookup(case["spec"])
    g = metric(spec)
    if case["what"] == "chris":
        ric(ctx, spec, RicciTensor.from_metric(g), "metric")
        sca(ctx, spec, RicciScalar.from_metric(g), "metric")
        ric(ctx, spec, RicciTensor.from_metric(metric(spec, "uu")), "metric-uu")
        sca(ctx, spec, RicciScalar.from_metric(metric(spec, "changed")), "metric-uu")
        ch = ChristoffelSymbols.from_metric(g)
        for c in (configs(3) if case["full"] else ["ull", "lll"]):
            c2 = ch if c == "ull" else ch.change_config(c)
            ric(ctx, spec, RicciTensor.from_christoffels(c2), "chris-" + c)
            sca(ctx, spec, RicciScalar.from_christoffels(c2), "chris-" + c)
            if c in ("ull", "lll"):
                T = RicciTensor.from_christoffels(c2, parent_metric=g)
                ric(ctx, spec, T, "chris-parent-" + c)
                ctx.check(T.parent_metric is g, spec.name + ":parent", "parent metric handed over is not kept")
                sca(ctx, spec, RicciScalar.from_christoffels(c2, parent_metric=g), "chris-parent-" + c)
                # symbols that carry no metric of their own; the metric handed over in either form
                bare = ChristoffelSymbols(c2.tensor(), c2.symbols(), config=c)
                for tag, m in (("ll", g), ("uu", g.inv())):
                    for t2, src in (("bare", bare), ("own", c2)):
                        T = RicciTensor.from_christoffels(src, parent_metric=m)
                        ric(ctx, spec, T, "chris-%s-%s-%s" % (t2, tag, c))
                        S = RicciScalar.from_christoffels(src, parent_metric=m)
                        sca(ctx, spec, S, "chris-%s-%s-%s" % (t2, tag, c))
                        ctx.check(T.parent_metric is m and S.parent_metric is m, spec.name + ":parent-" + t2, "parent metric handed over is not kept")
    elif case["what"] == "riem":
        rm = RiemannCurvatureTensor.from_metric(g)
        cf = configs(4)[4 * case["part"]:4 * case["part"] + 4] if case["full"] else ["ulll", "llll"]
        for c in cf:
            c2 = rm if c == "ulll" else rm.change_config(c)
            ric(ctx, spec, RicciTensor.from_riemann(c2), "riem-" + c)
            sca(ctx, spec, RicciScalar.from_riemann(c2), "riem-" + c)
            ric(ctx, spec, RicciTensor.from_riemann(c2, parent_metric=g), "riem-parent-" + c)
            if c in ("ulll", "llll", "uuuu", "lulu"):
                bare = RiemannCurvatureTensor(c2.tensor(), c2.symbols(), config=c)
                for tag, m in (("ll", g), ("uu", g.inv())):
                    for t2, src in (("bare", bare), ("own", c2)):
                        T = RicciTensor.from_riemann(src, parent_metric=m)
                        ric(ctx, spec, T, "riem-%s-%s-%s" % (t2, tag, c))
                        S = RicciScalar.from_riemann(src, parent_metric=m)
                        sca(ctx, spec, S, "riem-%s-%s-%s" % (t2, tag, c))
                        ctx.check(T.parent_metric is m and S.parent_metric is m, spec.name + ":parent-" + t2, "parent metric handed over is not kept")
    else:
        T = RicciTensor.from_metric(g)
        for c in configs(2):
            c2 = T if c == "ll" else T.change_config(c)
            cmpval(ctx, c2, spec, 0, geo(spec).reconfig(geo(spec).ric, "ll", c), "%s:ricci-%s" % (spec.name, c))
            sca(ctx, spec, RicciScalar.from_riccitensor(c2), "ricci-" + c)
            sca(ctx, spec, RicciScalar.from_riccitensor(c2, parent_metric=g), "ricci-parent-" + c)
            bare = RicciTensor(c2.tensor(), c2.symbols(), config=c)
            for tag, m in (("ll", g), ("uu", g.inv())):
                for t2, src in (("bare", bare), ("own", c2)):
                    S = RicciScalar.from_riccitensor(src, parent_metric=m)
                    sca(ctx, spec, S, "ricci-%s-%s-%s" % (t2, tag, c))
                    ctx.check(S.parent_metric is m, spec.name + ":parent-" + t2, "parent metric handed over is not kept")
        # the source is not changed by taking its trace
        cmpval(ctx, T, spec, 0, geo(spec).ric, spec.name + ":ricci-source")
        attrs_ok(ctx, T, spec, RicciTensor, "ll", spec.name + ":ricci-source")
