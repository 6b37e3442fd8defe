"""Christoffel symbols are the Levi-Civita connection of the metric."""
from mc.symb import *

PID = "C01"
LEVEL = "model_checking"
BOUND = {"quick": "all named metrics (dims 2-5) x all 6 ways of handing the metric over x all points; every metric "
                  "eta + one coordinate-dependent entry in dims 2,3,4; every 2x2 metric over 5 entries; all A,B,A "
                  "histories over metrics with the same coordinates",
         "thorough": "as quick plus eta + two coordinate-dependent entries in dims 2,3,4 and one in dim 5"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points",
               "sympy.diff and mpmath evaluation are trusted"]


def cases(tier):
    out = []
    for s in SPECS:
        out.append({"name": "forms:" + s.name, "spec": s.name})
    names = [s.name for s in perturbed(2) + perturbed(3) + perturbed(4) + small2()]
    if tier == "thorough":
        names += [s.name for s in perturbed2(2) + perturbed2(3) + perturbed2(4) + perturbed(5)]
    for i in range(0, len(names), 12):
        out.append({"name": "enum:%s.." % names[i], "enum": names[i:i + 12]})
    pairs = list(same_coords_pairs([s.name for s in SPECS]))
    for i in range(0, len(pairs), 8):
        out.append({"name": "pairs:%s,%s.." % pairs[i], "pairs": pairs[i:i + 8]})
    out += [{"name": "enum:" + s.name, "enum": [s.name]} for s in BIG]
    out += [{"name": "twins:" + nm, "twins": nm} for nm in TWINS]
    return out


def one(ctx, spec, g, label):
    key = "%s:%s" % (spec.name, label)
    ch = ChristoffelSymbols.from_metric(g)
    ctx.step()
    ctx.state(spec.name, label)
    attrs_ok(ctx, ch, spec, ChristoffelSymbols, "ull", key)
    for k in range(len(spec.points)):
        G = geo(spec, k)
        v = value(ch, spec, k)
        ctx.check(close(v, np.swapaxes(v, 1, 2)), key + ":torsion", lambda: "%s: not symmetric: %s" % (key, worst(v, np.swapaxes(v, 1, 2))))
        # metric compatibility, from the returned symbols: d_k g_ij = G^m_ki g_mj + G^m_kj g_im
        nab = G.dg - np.einsum("mki,mj->kij", v, G.g) - np.einsum("mkj,im->kij", v, G.g)
        ctx.check(close(nab, np.zeros_like(nab), scale=1.0), key + ":compat", lambda: "%s: nabla g != 0: %s" % (key, worst(nab, 0 * nab)))
        cmpval(ctx, ch, spec, k, G.ch, key + ":value")
    return ch


def run_case(case, ctx):
    if "twins" in case:
        return twin_history(ctx, lookup(case["twins"]), lambda q, g, lb: one(ctx, q, g, lb))
    if "spec" in case:
        spec = lookup(case["spec"])
        for form in FORMS:
            g = metric(spec, form)
            ch = one(ctx, spec, g, form)
            low = ch.change_config("lll")
            ctx.step()
            attrs_ok(ctx, low, spec, ChristoffelSymbols, "lll", "%s:%s:lll" % (spec.name, form))
            cmpval(ctx, low, spec, 0, geo(spec, 0).chl, "%s:%s:lll" % (spec.name, form))
            # computing twice from the same object, and from the parent metric it reports, changes nothing
            one(ctx, spec, g, form + "+again")
            one(ctx, spec, ch.parent_metric, form + "+parent")
            ctx.trace()
    for nm in case.get("enum", ()):
        spec = lookup(nm)
        one(ctx, spec, metric(spec), "ll")
        ctx.trace()
    for p, q in case.get("pairs", ()):
        A, B = lookup(p), lookup(q)
        gA, gB = metric(A), metric(B)
        one(ctx, A, gA, "1st")
        one(ctx, B, gB, "after " + p)
        one(ctx, A, gA, "again after " + q)
        ctx.trace()
