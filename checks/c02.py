"""Riemann tensor: definition, algebraic symmetries, route independence."""
from mc.symb import *

PID = "C02"
LEVEL = "model_checking"
BOUND = {"quick": "all named metrics (dims 2-5); every eta + one coordinate-dependent entry in dims 2,3,4; every 2x2 "
                  "metric over 4 entries; all 8 index configurations of the Christoffel symbols as starting point "
                  "(7 metrics of dims 2,3), with and without an explicit metric",
         "thorough": "as quick plus all 8 configurations for every metric and two-entry metrics in dims 2,3"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]


def cases(tier):
    out = []
    for s in SPECS:
        out.append({"name": "routes:" + s.name, "spec": s.name, "full": s.name in FULLQ or tier == "thorough"})
    names = [s.name for s in perturbed(2) + perturbed(3) + perturbed(4) + (small2() if tier == "thorough" else small2q())]
    if tier == "thorough":
        names += [s.name for s in perturbed2(2) + perturbed2(3)]
    for i in range(0, len(names), 6):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 6]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS]
    return out


def one(ctx, spec, rm, label):
    key = "%s:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, label)
    attrs_ok(ctx, rm, spec, RiemannCurvatureTensor, "ulll", key)
    for k in range(len(spec.points)):
        G = geo(spec, k)
        v = value(rm, spec, k)
        low = np.einsum("at,tsrn->asrn", G.g, v)
        sc = max(1.0, float(np.max(np.abs(low))))
        z = np.zeros_like(low)
        ctx.check(close(low + low.transpose(0, 1, 3, 2), z, scale=sc), key + ":antisym-last", key + ": not antisymmetric in the last pair")
        ctx.check(close(low + low.transpose(1, 0, 2, 3), z, scale=sc), key + ":antisym-first", key + ": not antisymmetric in the first pair")
        ctx.check(close(low - low.transpose(2, 3, 0, 1), z, scale=sc), key + ":pair", key + ": not symmetric under exchange of pairs")
        b = low + low.transpose(0, 2, 3, 1) + low.transpose(0, 3, 1, 2)
        ctx.check(close(b, z, scale=sc), key + ":bianchi1", key + ": first Bianchi identity fails")
        cmpval(ctx, rm, spec, k, G.riem, key + ":value")


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: one(ctx, q, RiemannCurvatureTensor.from_metric(g), lb))
    if "spec" in case:
        spec = lookup(case["spec"])
        g = metric(spec)
        rm = RiemannCurvatureTensor.from_metric(g)
        one(ctx, spec, rm, "metric")
        low = rm.change_config("llll")
        cmpval(ctx, low, spec, 0, geo(spec).riem_l, spec.name + ":llll")
        ctx.step()
        one(ctx, spec, RiemannCurvatureTensor.from_metric(metric(spec, "uu")), "metric-uu")
        ctx.trace(2)
        ch = ChristoffelSymbols.from_metric(g)
        cf = configs(3) if case["full"] else ["ull", "lll"]
        for c in cf:
            c2 = ch if c == "ull" else ch.change_config(c)
            one(ctx, spec, RiemannCurvatureTensor.from_christoffels(c2), "chris-%s" % c)
            rm2 = RiemannCurvatureTensor.from_christoffels(c2, parent_metric=g)
            one(ctx, spec, rm2, "chris-%s-parent" % c)
            ctx.check(rm2.parent_metric is g, spec.name + ":parent", "parent metric handed over is not kept")
            ctx.trace(2)
            # symbols that carry no metric of their own, the metric handed over explicitly
            bare = ChristoffelSymbols(c2.tensor(), c2.symbols(), config=c)
            rm3 = RiemannCurvatureTensor.from_christoffels(bare, parent_metric=g)
            one(ctx, spec, rm3, "bare-%s-parent" % c)
            ctx.check(rm3.parent_metric is g, spec.name + ":bare-parent", "parent metric handed over is not kept")
            if c in ("ull", "lll", "uuu", "llu"):     # ... or in its contravariant form
                up = g.inv()
                for tag, src in (("own", c2), ("bare", bare)):
                    rm4 = RiemannCurvatureTensor.from_christoffels(src, parent_metric=up)
                    one(ctx, spec, rm4, "%s-%s-parent-uu" % (tag, c))
                    ctx.check(rm4.parent_metric is up, spec.name + ":uu-parent", "parent metric handed over is not kept")
            ctx.trace()
            # the source object is still usable and unchanged
            cmpval(ctx, c2, spec, 0, geo(spec).reconfig(geo(spec).ch, "ull", c), "%s:source-%s" % (spec.name, c))
    for nm in case.get("enum", ()):
        spec = lookup(nm)
        one(ctx, spec, RiemannCurvatureTensor.from_metric(metric(spec)), "metric")
        ctx.trace()
