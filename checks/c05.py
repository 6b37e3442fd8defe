"""Weyl tensor: trace-free part of Riemann, conformal invariance, low dimensions."""
from mc.symb import *

PID = "C05"
LEVEL = "model_checking"
BOUND = {"quick": "all named metrics of dims 3-5 (covariant and contravariant input), conformal factor 9 for every 4-dim metric and two coordinate-dependent factors for some, "
                  "every eta + one entry in dim 4 and dim 3, every named metric of dim 2 rejected; 16 index configurations for 2 metrics",
         "thorough": "plus two-entry metrics in dim 4, one-entry in dim 5, 16 index configurations for every metric"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]


QCONF = {"mink4": [0, 1, 2], "kasnerlike4": [0, 1, 2], "schw4": [0, 1], "frw4": [0, 1], "kasner4": [0, 1], "stat4": [0, 1]}


def cases(tier):
    out = []
    for s in SPECS:
        out.append({"name": "metric:" + s.name, "spec": s.name, "full": s.name in ("schw4", "ppwave4") or tier == "thorough"})
        if s.n >= 3 and (s.n == 4 or tier == "thorough") and not s.funcs:
            for w in (range(3) if tier == "thorough" else QCONF.get(s.name, [0])):
                out.append({"name": "conformal%d:%s" % (w, s.name), "spec": s.name, "conf": w})
    names = [s.name for s in perturbed(3) + perturbed(4)]
    if tier == "thorough":
        names += [s.name for s in perturbed2(4)] + [s.name for s in perturbed(5)]
    for i in range(0, len(names), 4):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 4]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS if lookup(nm).n >= 3]
    return out


def one(ctx, spec, W, label, cfg="llll"):
    key = "%s:%s" % (spec.name, label)
    ctx.step()
    ctx.state(spec.name, label)
    attrs_ok(ctx, W, spec, WeylTensor, cfg, key)
    for k in range(len(spec.points)):
        g = geo(spec, k)
        v = value(W, spec, k)
        sc = max(1.0, float(np.max(np.abs(g.riem_l))), float(np.max(np.abs(v))))
        ref = g.reconfig(g.weyl if spec.n > 3 else np.zeros((3,) * 4), "llll", cfg)
        ctx.outcome("W", np.round(v, 6).tobytes())
        ctx.check(close(v, ref, scale=sc), key + ":value", lambda: "%s: %s" % (key, worst(v, ref)))
        if cfg == "llll":
            for a, b in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)):
                rest = [q for q in range(4) if q not in (a, b)]
                tr = np.tensordot(g.gi, v.transpose(a, b, *rest), axes=((0, 1), (0, 1)))
                ctx.check(close(tr, 0 * tr, scale=sc), key + ":trace%d%d" % (a, b), lambda: "%s: trace over indices %d,%d is not zero" % (key, a, b))
            ctx.check(close(v, -v.transpose(1, 0, 2, 3), scale=sc) and close(v, -v.transpose(0, 1, 3, 2), scale=sc)
                      and close(v, v.transpose(2, 3, 0, 1), scale=sc), key + ":sym", key + ": Riemann symmetries broken")
    ctx.trace()


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: one(ctx, q, WeylTensor.from_metric(g), lb))
    for nm in case.get("enum", ()):
        spec = lookup(nm)
        one(ctx, spec, WeylTensor.from_metric(metric(spec)), "ll")
    if "spec" not in case:
        return
    spec = lookup(case["spec"])
    if spec.n < 3:
        ctx.raises(ValueError, lambda: WeylTensor.from_metric(metric(spec)), spec.name + ":dim2", "Weyl tensor in 2 dimensions")
        ctx.state(spec.name)
        return
    if "conf" in case:
        s = spec.syms
        om = [sp.Integer(9), (1 + s[1] ** 2) ** 2, (2 + s[0] * s[1]) ** 2][case["conf"]]
        sp2 = curv.Spec(spec.name + "*%d" % case["conf"], s, [[e * om for e in r] for r in spec.arr], spec.points, spec.params, spec.funcs)
        W = WeylTensor.from_metric(metric(sp2))
        ctx.step()
        ctx.state(sp2.name)
        k = 0
        o = complex(curv.evalflat([om], {}, spec.point(k))[0])
        v = value(W, sp2, k) / o
        g = geo(spec, k)
        ref = g.weyl if spec.n > 3 else np.zeros((3,) * 4)
        sc = max(1.0, float(np.max(np.abs(g.riem_l))))
        ctx.check(close(v, ref, scale=sc), sp2.name + ":conformal", lambda: "%s: C^a_bcd changes under a conformal factor: %s" % (sp2.name, worst(v, ref)))
        ctx.trace()
        return
    W = WeylTensor.from_metric(metric(spec))
    one(ctx, spec, W, "ll")
    one(ctx, spec, WeylTensor.from_metric(metric(spec, "uu")), "uu")
    one(ctx, spec, WeylTensor.from_metric(metric(spec, "inv")), "inv")
    for c in (configs(4) if case["full"] and spec.n == 4 else ["ulll"]):
        one(ctx, spec, W.change_config(c), "ll-" + c, c)
    one(ctx, spec, W, "source")
