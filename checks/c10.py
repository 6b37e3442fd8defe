"""lorentz_transform: upper indices with the matrix, lower with its inverse; invariants; group structure."""
import itertools
from mc.symb import *

PID = "C10"
LEVEL = "model_checking"
BOUND = {"quick": "10 transformations (identity, boosts along 3 axes with symbolic and numeric speed, rotations, boost+rotation products, "
                  "parity) x every class and index configuration of rank 0-2 in dim 4, rank 0-3 in dims 2 and 3 (6 and 7 transformations, one with floating-point entries close to simple numbers), 12 classes and configurations of rank 4; undefined functions, tuples of symbols, unnamed tensors; every pair of transformations composed",
         "thorough": "rank 3 in dim 4 and rank 4 in dims 2 and 3"}
ASSUMPTIONS = ["two symbolic expressions are equal when they agree to 1e-9 at the chosen generic points"]

v, gam, al = sp.symbols("v gamma alpha")
PT = {v: "0.37", al: "0.81"}


def boost4(axis, b):
    g = 1 / sp.sqrt(1 - b ** 2)
    m = sp.eye(4)
    m[0, 0] = m[axis, axis] = g
    m[0, axis] = m[axis, 0] = -g * b
    return m


def rot4(i, j, a):
    m = sp.eye(4)
    m[i, i] = m[j, j] = sp.cos(a)
    m[i, j], m[j, i] = -sp.sin(a), sp.sin(a)
    return m


def boost2(b):
    g = 1 / sp.sqrt(1 - b ** 2)
    return sp.Matrix([[g, -g * b], [-g * b, g]])


T4 = {
    "id": sp.eye(4), "bx(v)": boost4(1, v), "by(3/5)": boost4(2, sp.Rational(3, 5)), "bz(-4/5)": boost4(3, -sp.Rational(4, 5)),
    "rot12(alpha)": rot4(1, 2, al), "rot13(pi/2)": rot4(1, 3, sp.pi / 2), "parity": sp.diag(1, -1, -1, -1),
    "swap": sp.Matrix([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]]),
    "bx*rot12": boost4(1, sp.Rational(3, 5)) * rot4(1, 2, sp.pi / 6), "by*bx": boost4(2, sp.Rational(3, 5)) * boost4(1, sp.Rational(4, 5)),
}
T2 = {"id": sp.eye(2), "b(v)": boost2(v), "b(3/5)": boost2(sp.Rational(3, 5)), "refl": sp.diag(1, -1), "b(-4/5)": boost2(-sp.Rational(4, 5)),
      "floats": sp.Matrix([[1.41421, 0.33333], [0.0001, 0.99999]])}



def in3(m):
    return sp.Matrix(m[:3, :3])


T3 = {"id": sp.eye(3), "bx(v)": in3(boost4(1, v)), "by(-3/5)": in3(boost4(2, -sp.Rational(3, 5))), "rot(alpha)": in3(rot4(1, 2, al)), "swap": sp.Matrix([[1, 0, 0], [0, 0, 1], [0, 1, 0]]),
      "bx*rot": in3(boost4(1, sp.Rational(3, 5)) * rot4(1, 2, sp.pi / 6)), "by*bx": in3(boost4(2, sp.Rational(3, 5)) * boost4(1, sp.Rational(4, 5)))}
TD = {4: T4, 3: T3, 2: T2}
KINDS = {0: ["base"], 1: ["base", "vector"], 2: ["base", "ricci", "einstein", "sem", "schouten"], 3: ["base", "chris"], 4: ["base", "riem", "weyl"]}
CLS = {"base": BaseRelativityTensor, "vector": GenericVector, "ricci": RicciTensor, "einstein": EinsteinTensor, "sem": StressEnergyMomentumTensor,
       "schouten": SchoutenTensor, "chris": ChristoffelSymbols, "riem": RiemannCurvatureTensor, "weyl": WeylTensor}


def cases(tier):
    out = []
    for dim, T in ((4, T4), (3, T3), (2, T2)):
        mx = {4: 2, 3: 3, 2: 3}[dim] + (tier == "thorough")
        for nm in T:
            for r in range(mx + 1):
                cl = configs(r) if r >= 2 else [None]
                for c in cl:
                    out.append({"name": "d%d:%s:rank%d:%s" % (dim, nm, r, c or ""), "dim": dim, "T": nm, "rank": r, "cfg": c})
        if tier != "thorough":
            for nm in {2: ("b(3/5)", "refl", "id"), 3: ("swap",), 4: ("swap",)}[dim]:
                for c in (("ulll", "llll", "lulu", "uuuu", "lllu") if dim == 2 else ("ulll",)):
                    out.append({"name": "d%d:%s:rank4:%s" % (dim, nm, c), "dim": dim, "T": nm, "rank": 4, "cfg": c})
        for a in T:
            out.append({"name": "d%d:compose:%s" % (dim, a), "dim": dim, "compose": a})
    out += [{"name": "extra:d%d" % n, "dim": n, "extra": 1} for n in (2, 3, 4)]
    return out


F1, F2 = sp.Function("F"), sp.Function("H")


def extra(ctx, n):
    """undefined functions, coordinate symbols in a tuple, a metric of its own, announced variables, every class of rank 1-3"""
    x = sp.symbols("t x y z")[:n]
    kk, b = sp.symbols("kk b")
    fun = {F1(x[1]): x[1] ** 2 + 1, F2(x[0], x[1]): 3 * x[0] - x[1] / 2}
    pt = {q: str(0.3 + 0.4 * i) for i, q in enumerate(x)}
    pt.update({kk: "1.7", b: "0.6", al: "0.81", v: "0.37"})
    A = TD[n]["bx(v)" if n > 2 else "b(v)"]
    M = np.array([complex(e) for e in curv.evalflat(list(A), {}, pt)]).reshape(n, n)
    g = MetricTensor(sp.diag(-1, *[2] * (n - 1)).tolist(), x)
    pool = [F1(x[1]), kk * x[0], F2(x[0], x[1]), b, sp.Integer(0), F1(x[1]).diff(x[1]), sp.Integer(2)]
    for r in range(1, 4 if n == 2 else 3):
        if r == 3:
            A = TD[2]["b(3/5)"]
            M = np.array([complex(e) for e in list(A)]).reshape(2, 2)
        arr = sp.Array([pool[q % 7] for q in range(n ** r)]).reshape(*(n,) * r)
        for cfg in configs(r):
            for kind in KINDS[r]:
                for var in ([], [kk, b], (b, kk)):
                    key = "d%d:extra:%s:%s:%s" % (n, kind, cfg, len(var) and type(var).__name__)
                    if kind == "base":
                        T = BaseRelativityTensor(arr, x, config=cfg, parent_metric=g, variables=var, functions=[])
                    elif not var:
                        T = CLS[kind](arr, x, config=cfg, parent_metric=g)
                    else:
                        continue
                    ref = expected(ev(arr, (n,) * r, fun, pt), M, np.linalg.inv(M), cfg)
                    for again in range(2 if r < 3 else 1):
                        U = T.lorentz_transform(A.tolist())
                        ctx.step()
                        ctx.state(key, again)
                        w = ev(U.tensor(), (n,) * r, fun, pt)
                        ctx.outcome(np.round(w, 6).tobytes())
                        ctx.check(close(w, ref), key, lambda: "%s: %s" % (key, worst(w, ref)))
                        ctx.check(tuple(U.symbols()) == tuple(x) and U.parent_metric is None and T.parent_metric is g, key + ":meta", key + ": symbols or metric")
                        free = U.tensor().free_symbols - set(x)
                        ctx.check(free <= set(U.variables) and len(set(U.variables)) == len(U.variables), key + ":variables", lambda: "%s: variables %s, free symbols %s" % (key, U.variables, free))
                        used = {type(e) for e in U.tensor().atoms(sp.core.function.AppliedUndef)}
                        have = {getattr(e, "func", e) for e in U.functions} | set(U.functions)
                        ctx.check(used <= have, key + ":functions", lambda: "%s: functions %s, used %s" % (key, U.functions, used))
                        ctx.trace()


def content(n, rank, syms, sparse):
    """non-symmetric numeric content with a coordinate and a parameter in one slot"""
    out = []
    for q, idx in enumerate(itertools.product(range(n), repeat=rank)):
        e = sp.Integer(0)
        if not sparse or (q * 7) % 5 == 0 or q == 1:
            e = sp.Integer((q * q + 3 * q + 1) % 11 - 4)
        if q == 0:
            e = e + syms[0]
        if q == n ** rank - 1:
            e = e + sp.Symbol("k") * syms[-1]
        out.append(e)
    return out


def expected(vals, M, Mi, cfg):
    for i, c in enumerate(cfg):
        # upper: V'^a = L^a_b V^b ; lower: W'_a = (L^-1)^b_a W_b
        m = M if c == "u" else Mi.T
        vals = np.moveaxis(np.tensordot(m, vals, axes=(1, i)), 0, i)
    return vals


def run_case(case, ctx):
    n = case["dim"]
    if "extra" in case:
        return extra(ctx, n)
    TT = TD[n]
    syms = list(sp.symbols("t x y z")[:n])
    pt = dict(PT)
    pt[sp.Symbol("k")] = "1.7"
    pt.update({x: str(0.3 + 0.4 * i) for i, x in enumerate(syms)})

    def num(m):
        return np.array([complex(x) for x in curv.evalflat(list(m), {}, pt)]).reshape(n, n)

    def numval(T):
        return ev(T.tensor(), (n,) * len(T.config), {}, pt)

    eta = sp.diag(-1, *[1] * (n - 1))
    if "compose" in case:
        A = TT[case["compose"]]
        for b, B in TT.items():
            key = "d%d:%s then %s" % (n, case["compose"], b)
            for cfg in ("u", "l", "ul"):
                if cfg == "ul" and n >= 3 and (A.free_symbols or B.free_symbols):
                    continue
                T = BaseRelativityTensor(sp.Array(content(n, len(cfg), syms, True)).reshape(*(n,) * len(cfg)), syms, config=cfg)
                U = T.lorentz_transform(A.tolist()).lorentz_transform(B.tolist())
                ref = expected(numval(T), num(B * A), np.linalg.inv(num(B * A)), cfg)
                ctx.step(2)
                ctx.state(key, cfg)
                w = numval(U)
                ctx.outcome(np.round(w, 6).tobytes())
                ctx.check(close(w, ref), key + ":" + cfg, lambda: "%s on %s: %s" % (key, cfg, worst(w, ref)))
                ctx.trace()
            back = T.lorentz_transform(A.tolist()).lorentz_transform(A.inv().tolist())
            ctx.check(close(numval(back), numval(T)), "d%d:%s:roundtrip" % (n, case["compose"]), "transforming back does not restore the components")
            # the Minkowski metric is invariant and a contraction is a scalar
        g = MetricTensor(eta.tolist(), syms)
        for form in (g, g.inv()):
            L = form.lorentz_transform(A.tolist())
            ctx.check(type(L) is MetricTensor and L.config == form.config, "d%d:%s:metric-class" % (n, case["compose"]), "transformed metric has another class or configuration")
            ctx.check(case["compose"] == "floats" or close(numval(L), numval(g)), "d%d:%s:metric" % (n, case["compose"]), "the Minkowski metric is not invariant")
            ctx.step()
        V = GenericVector(content(n, 1, syms, False), syms, config="u")
        W = GenericVector(content(n, 1, syms, True), syms, config="l")
        s0 = np.dot(numval(V), numval(W))
        s1 = np.dot(numval(V.lorentz_transform(A.tolist())), numval(W.lorentz_transform(A.tolist())))
        ctx.check(abs(s0 - s1) <= 1e-9 * max(1, abs(s0)), "d%d:%s:scalar" % (n, case["compose"]), "contraction of a vector and a covector is not invariant")
        return
    name = case["T"]
    A = TT[name]
    M = num(A)
    Mi = np.linalg.inv(M)
    r = case["rank"]
    for cfg in ([case["cfg"]] if case["cfg"] else configs(r)):
        for kind in KINDS[r]:
            if r >= 3 and kind != "base" and cfg[0] == "l" and n >= 3:
                continue
            if n == 4 and r == 2 and A.free_symbols and kind not in ("base", "sem", "ricci"):
                continue
            cls = CLS[kind]
            key = "d%d:%s:%s:%s" % (n, name, kind, cfg)
            arr = content(n, r, syms, r >= 2)
            arr = sp.Array(arr).reshape(*(n,) * r) if r else arr[0]
            T = cls(arr, syms, config=cfg, name="Q")
            before = str(T.tensor())
            for form, tm in (("list", A.tolist()), ("array", sp.Array(A.tolist()))):
                if form == "array" and (r != 1):
                    continue
                U = T.lorentz_transform(tm)
                ctx.step()
                ctx.state(key, form)
                ctx.check(type(U) is cls, key + ":class", lambda: "%s: result is a %s" % (key, type(U).__name__))
                ctx.check(U.config == cfg and list(U.syms) == syms and U.order == r, key + ":meta", key + ": configuration, symbols or order changed")
                ctx.check(U.parent_metric is None, key + ":parent", key + ": keeps the metric of the old frame")
                ctx.check(isinstance(U.name, str) and U.name.startswith("Q"), key + ":name", key + ": name lost")
                ref = expected(numval(T), M, Mi, cfg)
                w = numval(U)
                ctx.outcome(np.round(w, 6).tobytes())
                ctx.check(close(w, ref), key, lambda: "%s: %s" % (key, worst(w, ref)))
                free = U.tensor().free_symbols - set(syms)
                ctx.check(free <= set(U.variables), key + ":variables", lambda: "%s: free symbols %s not among variables %s" % (key, free, U.variables))
                args, f = U.tensor_lambdify()
                z = np.array(f(*[float(pt[a]) for a in args]), dtype=complex)
                ctx.check(close(z, ref), key + ":lambdify", key + ": lambdified result differs")
                ctx.trace()
            ctx.check(str(T.tensor()) == before and T.config == cfg, key + ":pure", key + ": source modified")
            N = cls(arr, syms, config=cfg, name=None).lorentz_transform(A.tolist()) if kind != "base" and r == 1 else None
            ctx.check(N is None or N.name is None, key + ":noname", key + ": nameless tensor got a name")
