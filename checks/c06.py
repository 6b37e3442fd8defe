"""Schouten tensor and the Riemann = Weyl + g^P decomposition."""
from mc.symb import *

PID = "C06"
LEVEL = "model_checking"
BOUND = {"quick": "all named metrics of dims 3-5 x 3 ways of handing the metric over x all 4 index configurations; every eta + one "
                  "entry in dims 3,4; every named 2-dimensional metric rejected",
         "thorough": "plus two-entry metrics in dims 3,4 and one-entry in dim 5"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]


def cases(tier):
    out = [{"name": "metric:" + s.name, "spec": s.name} for s in SPECS]
    names = [s.name for s in perturbed(3) + perturbed(4)]
    if tier == "thorough":
        names += [s.name for s in perturbed2(3) + perturbed2(4) + perturbed(5)]
    for i in range(0, len(names), 5):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 5]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS if lookup(nm).n >= 3]
    return out


def one(ctx, spec, P, label, cfg="ll"):
    key = "%s:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, label)
    attrs_ok(ctx, P, spec, SchoutenTensor, cfg, key)
    for k in range(len(spec.points)):
        g = geo(spec, k)
        v = value(P, spec, k)
        ref = g.reconfig(g.sch, "ll", cfg)
        sc = max(1.0, float(np.max(np.abs(ref))), float(np.max(np.abs(g.ric))))
        ctx.outcome("P", np.round(v, 6).tobytes())
        ctx.check(close(v, ref, scale=sc), key + ":value", lambda: "%s: %s" % (key, worst(v, ref)))
        if cfg == "ll":
            G = g.g
            kn = (np.einsum("ac,bd->abcd", G, v) + np.einsum("bd,ac->abcd", G, v)
                  - np.einsum("ad,bc->abcd", G, v) - np.einsum("bc,ad->abcd", G, v))
            tot = kn + (g.weyl if spec.n > 3 else 0)
            sc2 = max(1.0, float(np.max(np.abs(g.riem_l))))
            ctx.check(close(tot, g.riem_l, scale=sc2), key + ":decomp", lambda: "%s: Riemann != Weyl + g^P: %s" % (key, worst(tot, g.riem_l)))
            tr = np.einsum("ab,ab->", g.gi, v)
            ctx.check(close(tr, g.R / (2 * (spec.n - 1)), scale=max(1.0, abs(g.R))), key + ":trace", key + ": trace is not R/(2(n-1))")
    ctx.trace()


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: one(ctx, q, SchoutenTensor.from_metric(g), lb))
    for nm in case.get("enum", ()):
        spec = lookup(nm)
        one(ctx, spec, SchoutenTensor.from_metric(metric(spec)), "ll")
    if "spec" not in case:
        return
    spec = lookup(case["spec"])
    if spec.n < 3:
        for form in ("ll", "uu"):
            ctx.raises(ValueError, lambda: SchoutenTensor.from_metric(metric(spec, form)), spec.name + ":dim2:" + form, "Schouten tensor in 2 dimensions")
            ctx.state(spec.name, form)
        return
    for form in ("ll", "uu", "inv"):
        g = metric(spec, form)
        P = SchoutenTensor.from_metric(g)
        one(ctx, spec, P, form)
        for c in configs(2):
            one(ctx, spec, P.change_config(c), form + "-" + c, c)
            one(ctx, spec, P.change_config(c).change_config("ll"), form + "-" + c + "-ll")
        one(ctx, spec, P, form + "-source")
