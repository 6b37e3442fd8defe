"""Einstein tensor (value, contracted Bianchi identity) and the stress-energy tensor derived from it."""
from mc.symb import *
from einsteinpy.symbolic.constants import Cosmo_Const, G as GN, c as cc

PID = "C04"
LEVEL = "model_checking"
BOUND = {"quick": "all named metrics (dims 2-5) x 3 ways of handing the metric over, every index configuration of both "
                  "tensors for 7 metrics; every eta + one coordinate-dependent entry in dims 2,3,4; 2 sets of values of c, G, Lambda",
         "thorough": "every index configuration for every metric, two-entry metrics in dims 2,3"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points",
               "sign convention of the cosmological term is the documented one of the code, T = c^4/(8 pi G)(G_ab - Lambda g_ab)"]
CONSTS = [{cc: "1.3", GN: "0.7", Cosmo_Const: "0.45"}, {cc: "2", GN: "1.9", Cosmo_Const: "-0.8"}]


def cases(tier):
    out = [{"name": "metric:" + s.name, "spec": s.name, "full": s.name in FULLQ or tier == "thorough"} for s in SPECS]
    names = [s.name for s in perturbed(2) + perturbed(3) + perturbed(4)]
    if tier == "thorough":
        names += [s.name for s in perturbed2(2) + perturbed2(3) + small2()]
    for i in range(0, len(names), 5):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 5]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS]
    return out


def einstein(ctx, spec, T, label, cfg="ll"):
    key = "%s:einstein:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, "E", label)
    attrs_ok(ctx, T, spec, EinsteinTensor, cfg, key)
    for k in range(len(spec.points)):
        g = geo(spec, k)
        ref = g.reconfig(g.ein, "ll", cfg)
        v = value(T, spec, k)
        sc = max(1.0, float(np.max(np.abs(ref))), float(np.max(np.abs(g.ric))))
        ctx.outcome("E", np.round(v, 6).tobytes())
        ctx.check(close(v, ref, scale=sc), key, lambda: "%s: %s" % (key, worst(v, ref)))


def bianchi(ctx, spec, T, label):
    """nabla^a G_ab = 0 with the derivatives taken of the returned expressions"""
    n, s = spec.n, spec.syms
    key = "%s:bianchi:%s" % (spec.name, label)
    arr = T.tensor()
    exprs = [sp.sympify(arr[i, j]) for i in range(n) for j in range(n)]
    if spec.funcs:
        exprs = [e.subs(spec.funcs).doit() for e in exprs]
    d = [sp.diff(e, x) for x in s for e in exprs]
    for k in range(len(spec.points)):
        g = geo(spec, k)
        v = np.array([complex(q) for q in curv.evalflat(exprs + d, spec.funcs, spec.point(k))])
        E, dE = v[:n * n].reshape(n, n), v[n * n:].reshape(n, n, n)
        cov = dE - np.einsum("mca,mb->cab", g.ch, E) - np.einsum("mcb,am->cab", g.ch, E)
        div = np.einsum("ca,cab->b", g.gi, cov)
        sc = max(1.0, float(np.max(np.abs(cov))))
        ctx.check(close(div, 0 * div, rtol=1e-8, scale=sc), key, lambda: "%s: divergence %s" % (key, div))


def sem(ctx, spec, T, label, cfg="ll"):
    key = "%s:sem:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, "T", label)
    attrs_ok(ctx, T, spec, StressEnergyMomentumTensor, cfg, key)
    for k in range(len(spec.points)):
        g = geo(spec, k)
        for cst in CONSTS:
            C, GG, L = (float(cst[q]) for q in (cc, GN, Cosmo_Const))
            ref = g.reconfig(C ** 4 / (8 * np.pi * GG) * (g.ein - L * g.g), "ll", cfg)
            v = value(T, spec, k, extra=cst)
            sc = max(1.0, float(np.max(np.abs(ref))))
            ctx.check(close(v, ref, scale=sc), key, lambda: "%s: %s" % (key, worst(v, ref)))


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: (einstein(ctx, q, EinsteinTensor.from_metric(g), lb), sem(ctx, q, StressEnergyMomentumTensor.from_metric(g), lb)))
    for nm in case.get("enum", ()):
        spec = lookup(nm)
        T = EinsteinTensor.from_metric(metric(spec))
        einstein(ctx, spec, T, "ll")
        bianchi(ctx, spec, T, "ll")
        ctx.trace()
    if "spec" not in case:
        return
    spec = lookup(case["spec"])
    for form in ("ll", "uu", "changed"):
        g = metric(spec, form)
        T = EinsteinTensor.from_metric(g)
        einstein(ctx, spec, T, form)
        if form == "ll":
            bianchi(ctx, spec, T, form)
        S = StressEnergyMomentumTensor.from_metric(g)
        sem(ctx, spec, S, form)
        ctx.trace(2)
        cf = configs(2) if case["full"] else ["uu"]
        if form == "ll" or case["full"]:
            for c in cf:
                einstein(ctx, spec, T.change_config(c), form + "-" + c, c)
                S2 = S.change_config(c)
                sem(ctx, spec, S2, form + "-" + c, c)
                sem(ctx, spec, S2.change_config("ll"), form + "-" + c + "-ll", "ll")
                ctx.trace(3)
        # sources unchanged
        einstein(ctx, spec, T, form + "-source")
        sem(ctx, spec, S, form + "-source")
