"""tensor_lambdify: argument order and values for every class, configuration and history."""
import itertools
from mc.symb import *

PID = "C11"
LEVEL = "model_checking"
BOUND = {"quick": "every tensor class of every parameter/function-free named metric (dims 2-5), default argument list; every permutation of the "
                  "arguments for dim 2-3 metrics; after change_config, lorentz_transform, subs-free products; scalars; integer, float and numpy inputs",
         "thorough": "additionally every eta + one entry metric in dims 2,3"}
ASSUMPTIONS = ["float64 evaluation by numpy agrees with 40-digit evaluation to 1e-9 at the chosen points"]


def cases(tier):
    out = [{"name": "lam:" + s.name, "spec": s.name} for s in SPECS if not s.funcs]
    if tier == "thorough":
        out += [{"name": "lam:" + s.name, "spec": s.name} for s in perturbed(2) + perturbed(3)]
    for i in range(4):
        out.append({"name": "vars%d" % i, "vars": i})
    out.append({"name": "funcs", "funcs": 1})
    return out


def verify(ctx, T, spec, ref, key, perms=False):
    pt = spec.point(0)
    syms = list(spec.syms)
    args, f = T.tensor_lambdify()
    ctx.step()
    ctx.state(key)
    want_free = sorted((s for s in T.tensor().free_symbols if s not in syms), key=lambda s: s.name)
    ctx.check(list(args)[:len(syms)] == syms, key + ":syms-first", lambda: "%s: arguments %s do not start with the coordinates" % (key, args))
    ctx.check(list(args) == syms + list(T.variables), key + ":args", lambda: "%s: arguments %s are not coordinates + variables" % (key, args))
    ctx.check(set(want_free) <= set(args) and len(set(args)) == len(args), key + ":free", lambda: "%s: arguments %s miss %s" % (key, args, want_free))
    sc = max(1.0, float(np.max(np.abs(ref))))

    def cmp(x, k2):
        x = np.array(x, dtype=complex)
        ctx.outcome(np.round(x, 6).tobytes())
        ctx.check(close(x, ref, scale=sc), key + k2, lambda: "%s%s: %s" % (key, k2, worst(x, ref)))

    vals = [float(pt[a]) if a in pt else 0.0 for a in args]
    cmp(f(*vals), ":value")
    cmp(f(*[np.float64(x) for x in vals]), ":numpy")
    ctx.trace()
    # a second call of the same function and a second lambdification give the same numbers
    cmp(f(*vals), ":again")
    cmp(T.tensor_lambdify()[1](*vals), ":relambdify")
    if perms:
        for perm in itertools.permutations(args):
            a2, f2 = T.tensor_lambdify(*perm)
            ctx.step()
            ctx.check(tuple(a2) == tuple(perm), key + ":explicit-args", key + ": explicit argument order not reported back")
            cmp(f2(*[float(pt[a]) for a in perm]), ":perm")
            ctx.trace()


def run_case(case, ctx):
    if "vars" in case:
        # variables are ordered by name after the coordinates, whatever their position in the components
        t, r = sp.symbols("t r")
        A, B, zz, m1 = sp.symbols("A beta zeta m_1")
        pool = [A, B, zz, m1]
        for perm in itertools.permutations(pool):
            rot = list(perm)[case["vars"]:] + list(perm)[:case["vars"]]
            arr = [[rot[0] * t, rot[1] + r], [rot[2] * rot[3], 3 * rot[0] - 2 * rot[1]]]
            T = BaseRelativityTensor(arr, (t, r), config="ul")
            args, f = T.tensor_lambdify()
            key = "vars:" + ",".join(map(str, rot))
            ctx.step()
            ctx.state(key)
            ctx.check(list(args) == [t, r] + sorted(pool, key=lambda s: s.name), key + ":order", lambda: "%s: argument order %s" % (key, args))
            val = {t: 2.0, r: 3.0, A: 5.0, B: 7.0, zz: 11.0, m1: 13.0}
            want = np.array([[float(sp.sympify(e).subs(val)) for e in row] for row in arr])
            ctx.check(close(np.array(f(*[val[a] for a in args]), dtype=float), want), key, key + ": wrong values")
            T2 = BaseRelativityTensor(arr, (t, r), config="ul", variables=list(rot))
            a2, f2 = T2.tensor_lambdify()
            ctx.check(list(a2) == [t, r] + rot, key + ":explicit", lambda: "%s: explicit variables reordered: %s" % (key, a2))
            ctx.check(close(np.array(f2(*[val[a] for a in a2]), dtype=float), want), key + ":explicit-value", key + ": wrong values with explicit variables")
            ctx.trace(2)
        return
    if "funcs" in case:
        t, r = sp.symbols("t r")
        f = sp.Function("f")
        T = BaseRelativityTensor([[f(r), 0], [0, t]], (t, r), config="ll")
        ctx.check(f(r) in T.functions, "funcs:recorded", lambda: "functions %s" % (T.functions,))
        ctx.check(not T.variables, "funcs:vars", lambda: "variables %s" % (T.variables,))
        ctx.state("funcs")
        ctx.step()
        ctx.trace()
        return
    spec = lookup(case["spec"])
    g = metric(spec)
    G = geo(spec)
    perms = spec.n <= 3
    verify(ctx, g, spec, G.g, spec.name + ":g", perms)
    verify(ctx, g.inv(), spec, G.gi, spec.name + ":ginv")
    ch = ChristoffelSymbols.from_metric(g)
    verify(ctx, ch, spec, G.ch, spec.name + ":chris", perms and len(spec.params) == 0)
    verify(ctx, ch.change_config("lll"), spec, G.chl, spec.name + ":chris-lll")
    rm = RiemannCurvatureTensor.from_christoffels(ch)
    verify(ctx, rm, spec, G.riem, spec.name + ":riem")
    rc = RicciTensor.from_riemann(rm)
    verify(ctx, rc, spec, G.ric, spec.name + ":ricci", spec.n == 2)
    verify(ctx, rc.change_config("ul"), spec, G.reconfig(G.ric, "ll", "ul"), spec.name + ":ricci-ul")
    rs = RicciScalar.from_riccitensor(rc)
    verify(ctx, rs, spec, np.array(G.R), spec.name + ":scalar")
    e = EinsteinTensor.from_metric(g)
    verify(ctx, e, spec, G.ein, spec.name + ":einstein")
    V = GenericVector([s + i for i, s in enumerate(spec.syms)], spec.syms, config="u", parent_metric=g)
    pv = np.array([float(spec.point(0)[s]) + i for i, s in enumerate(spec.syms)])
    verify(ctx, V, spec, pv, spec.name + ":vector", spec.n <= 3)
    verify(ctx, V.change_config("l"), spec, G.g @ pv, spec.name + ":vector-l")
    if spec.n >= 3:
        verify(ctx, SchoutenTensor.from_metric(g), spec, G.sch, spec.name + ":schouten")
