"""Symbolic constants, array helpers, coordinate transformation matrices, unit stripping: every input of a grid and every short history of creations."""
import copy
import itertools
import pickle
import numpy as np
import sympy as sp
import astropy.units as u
from einsteinpy.symbolic import SymbolicConstant, TransformationMatrix, get_constant, simplify_sympy_array, constants
from einsteinpy.symbolic.helpers import sympy_to_np_array
from einsteinpy.units import primitive
from einsteinpy.utils import CoordinateError

PID = "C43"
LEVEL = "model_checking"
BOUND = {"quick": "all words of <= 4 operations on constants (create with the same or other name / assumption, look up, copy, pickle); arrays of 13 shapes up to rank 4 x 8 entry generators and 6 shapes of 1089 to 1202 entries; 9 coordinate changes "
                  "in 1-4 dimensions; 300 tuples of quantities in 15 units", "thorough": "words of <= 5 operations"}
ASSUMPTIONS = []
X = sp.symbols("x y z t")
P, Q_, R_, S_ = sp.symbols("p q r s", positive=True)


def cases(tier):
    return [dict(name="constants:%d" % i, const=i) for i in range(7)] + [dict(name="arrays:%d" % i, arrays=i) for i in range(8)] + [dict(name="matrix", matrix=1), dict(name="primitive", prim=1), dict(name="errors", errors=1), dict(name="large", large=1)]


OFFICIAL = {"c": ("c", "Speed Of Light"), "G": ("G", "Gravitational Constant"), "Cosmo_Const": ("Lambda", "Cosmological Constant"), "eps_0": ("eps_0", "Permittivity of free space")}
# (name, description, assumptions)
NEW = [("c", "Speed of sound", {}), ("G", None, {}), ("k", "Stiffness", {}), ("k", "Wave number", {}), ("k", "Curvature", {"positive": True})]


def const_ops():
    return [("new", n) for n in NEW] + [("copy", "c"), ("pickle", "G")]


def consts(case, ctx):
    L = 4 if ctx.tier == "quick" else 5
    ops = const_ops()
    for word in itertools.product(range(len(ops)), repeat=L - 1):
        made = []
        for k in (case["const"],) + word:
            op, arg = ops[k]
            ctx.step()
            if op == "new":
                n, d, a = arg
                o = SymbolicConstant(n, d, **a) if d is not None else SymbolicConstant(n, **a)
                made.append((o, n, d, bool(a)))
            elif op == "copy":
                o = copy.deepcopy(get_constant(arg))
                ctx.check(o == get_constant(arg) and o.descriptive_name == get_constant(arg).descriptive_name, "constants:copy", "a copy differs from the constant")
            else:
                o = pickle.loads(pickle.dumps(get_constant(arg)))
                ctx.check(o == get_constant(arg) and o.descriptive_name == get_constant(arg).descriptive_name, "constants:pickle", "an unpickled constant differs")
        ctx.state(word)
        for o, n, d, pos in made:
            ctx.check(o.name == n and str(o) == n and o.descriptive_name == d and o.is_positive == (True if pos else None), "constants:made:" + n,
                      lambda: "after %s: constant %r called %r" % ([ops[k] for k in word], n, o.descriptive_name))
            ctx.check(isinstance(o, sp.Symbol) and o != sp.Symbol(n) and sp.diff(o ** 3, o) == 3 * o ** 2 and (2 * o).subs(o, 5) == 10, "constants:symbol:" + n, "constant %s is not a symbol of its own" % n)
        for a, b in itertools.combinations(made, 2):
            ctx.check((a[0] == b[0]) == (a[1] == b[1] and a[3] == b[3]), "constants:equal", lambda: "constants %s and %s compare %s" % (a, b, a[0] == b[0]))
        for k, (n, d) in OFFICIAL.items():
            o = get_constant(k)
            ctx.check(o is getattr(constants, k) and o.name == n and o.descriptive_name == d and isinstance(o, SymbolicConstant), "constants:official:" + k,
                      lambda: "after %s: constant %s is %r, %r" % ([ops[i] for i in word], k, o, o.descriptive_name))
        ctx.trace()
    for bad in ("", "C", "lambda", "Lambda", "cosmo", None, 1):
        ctx.raises(KeyError, lambda: get_constant(bad), "constants:bad:%s" % bad, "get_constant(%r)" % (bad,))


SH = [(), (1,), (3,), (2, 2), (1, 4), (4, 1), (3, 2), (2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 1, 1, 2), (2, 2, 2, 2), (1, 1, 1, 1)]


# different symbols which print alike
SAME = [sp.Symbol("k"), sp.Symbol("k", positive=True), sp.Symbol("k", integer=True), SymbolicConstant("k", "a constant"), sp.Dummy("k"), sp.Function("k")(sp.Symbol("x", real=True)), sp.Function("k")(sp.Symbol("x"))]


def entry(gen, i):
    x, y, z, t = X
    return [lambda: sp.Integer(i), lambda: sp.sin(x + i) ** 2 + sp.cos(x + i) ** 2 + i * y, lambda: ((x + i) ** 2 - (x - i) ** 2) / (4 * x) if i else x / x - 1,
            lambda: (x ** (i + 2) - x ** (i + 1)) / (x - 1), lambda: sp.Symbol("e%d" % i) * y / y, lambda: sp.Rational(i, 7) + sp.sqrt(sp.Integer(8)) * t / sp.sqrt(sp.Integer(2)),
            lambda: SAME[i % len(SAME)] * y / y, lambda: (i - 3) * SAME[i % len(SAME)] / (i - 3) if i != 3 else SAME[0] - SAME[1]][gen]()


PTS = [dict(zip(X, v)) for v in ((0.37, -1.21, 0.83, 1.9), (2.3, 0.44, -0.7, -1.1))]


def equal(a, b):
    if a == b:
        return True
    for pt in PTS:
        d = {s: pt.get(s, 0.61 + 0.1 * len(s.name)) for s in a.free_symbols | b.free_symbols}
        if abs(complex(a.subs(d)) - complex(b.subs(d))) > 1e-9 * (1 + abs(complex(b.subs(d)))):
            return False
    return True


def arrays(ctx, gen):
    for sh, cls in itertools.product(SH, (sp.ImmutableDenseNDimArray, sp.MutableDenseNDimArray)):
        n = int(np.prod(sh))
        es = [entry(gen, i) for i in range(n)]
        if sh == ():
            arr = es[0]
            got = simplify_sympy_array(arr)
            ctx.step()
            ctx.state(sh, gen, "expr")
            ctx.check(sp.simplify(got - es[0]) == 0, "arrays:expr", "simplifying %s gives %s" % (es[0], got))
            arr = cls(es[0])
        else:
            arr = cls(es, sh)
        key = "arrays:%s:%d:%s" % (sh, gen, cls.__name__)
        ctx.state(key)
        before = str(arr)
        try:
            got = simplify_sympy_array(arr)
        except Exception as e:
            ctx.check(False, key + ":raises", "%s: %r" % (key, e))
            continue
        ctx.step()
        if sh == ():
            ctx.check(sp.simplify((got[()] if hasattr(got, "shape") else got) - es[0]) == 0, key, "%s: %s -> %s" % (key, es[0], got))
        else:
            ok = ctx.check(tuple(got.shape) == sh, key + ":shape", lambda: "%s: shape %s" % (key, got.shape))
            if ok:
                for i, ix in enumerate(itertools.product(*map(range, sh))):
                    ctx.check(equal(got[ix], es[i]), key, lambda: "%s: entry %s is %s, was %s" % (key, ix, got[ix], es[i]))
                    ctx.check(sp.count_ops(got[ix]) <= sp.count_ops(es[i]), key + ":simpler", lambda: "%s: %s is not simpler than %s" % (key, got[ix], es[i]))
                a = sympy_to_np_array(arr)
                ctx.step()
                ctx.check(isinstance(a, np.ndarray) and a.shape == sh and all(a[ix] == arr[ix] for ix in itertools.product(*map(range, sh))), key + ":numpy", lambda: "%s: as a numpy array %s" % (key, a))
        ctx.check(str(arr) == before, key + ":input", "%s: the array was changed" % key)
        ctx.outcome(str(got)[:80])
        ctx.trace()


def large(ctx):
    """rows longer than the interpreter's stack is deep"""
    x = sp.Symbol("x")
    for sh in ((1200,), (1, 1200), (1200, 1), (2, 601), (33, 33), (3, 1, 400)):
        n = int(np.prod(sh))
        es = [(sp.Integer(i) * x + x if i % 400 == 7 else sp.Integer(i)) for i in range(n)]
        for cls in (sp.ImmutableDenseNDimArray, sp.MutableDenseNDimArray):
            arr = cls(es, sh)
            key = "large:%s:%s" % (sh, cls.__name__)
            ctx.state(key)
            got = simplify_sympy_array(arr)
            a = sympy_to_np_array(arr)
            ctx.step(2)
            ok = ctx.check(tuple(got.shape) == sh and a.shape == sh, key + ":shape", lambda: "%s: shapes %s, %s" % (key, got.shape, a.shape))
            bad = [ix for i, ix in enumerate(itertools.product(*map(range, sh))) if ok and (sp.expand(got[ix] - es[i]) != 0 or a[ix] != es[i])]
            ctx.check(not bad, key, lambda: "%s: entries %s changed" % (key, bad[:5]))
            ctx.trace()


CH = {
    "scale1": ([X[0]], [P], [3 * P]), "polar": ([X[0], X[1]], [P, Q_], [P * sp.cos(Q_), P * sp.sin(Q_)]),
    "scale2": ([X[0], X[1]], [P, Q_], [2 * P, 5 * Q_]), "shear": ([X[0], X[1]], [P, Q_], [P + 3 * Q_, 2 * P - Q_]),
    "boost": ([X[3], X[0]], [P, Q_], [P * sp.cosh(2) + Q_ * sp.sinh(2), P * sp.sinh(2) + Q_ * sp.cosh(2)]),
    "parabolic": ([X[0], X[1]], [P, Q_], [P * Q_, (P ** 2 - Q_ ** 2) / 2]), "null": ([X[3], X[0]], [P, Q_], [(P + Q_) / 2, (P - Q_) / 2]),
    "spherical": ([X[0], X[1], X[2]], [P, Q_, R_], [P * sp.sin(Q_) * sp.cos(R_), P * sp.sin(Q_) * sp.sin(R_), P * sp.cos(Q_)]),
    "mixed4": ([X[3], X[0], X[1], X[2]], [S_, P, Q_, R_], [S_ + P, S_ * 2 + P * P, Q_ * R_, R_ * P]),
}


def matrix(ctx):
    for name, (old, new, n2o) in CH.items():
        n = len(old)
        m = TransformationMatrix.from_new2old(old, new, n2o)
        ctx.step()
        key = "matrix:" + name
        ctx.state(key)
        ctx.check(tuple(m.shape) == (n, n) and list(m.old_coords) == old and list(m.new_coords) == new and list(m.new2old) == n2o and m.old2new is None, key + ":attrs", "%s: attributes" % key)
        J = sp.Matrix(n, n, lambda i, j: sp.diff(n2o[j], new[i]))  # d old_j / d new_i
        inv = m.inv()
        ctx.check(m.inv() is inv or m.inv() == inv, key + ":inv2", "%s: the inverse changes" % key)
        Mt, It = sp.Matrix(m.tolist()), sp.Matrix(inv.tolist())
        # M[i, j] = d new_i / d old_j (either index order), M times its inverse is the identity
        right = J.inv()
        good = Mt.applyfunc(sp.simplify) in (right.applyfunc(sp.simplify), right.T.applyfunc(sp.simplify)) or (Mt - right).applyfunc(sp.simplify).is_zero_matrix or (Mt - right.T).applyfunc(sp.simplify).is_zero_matrix
        recip = all((J[i, j] == 0 and Mt[i, j] == sp.zoo) or (J[i, j] != 0 and sp.simplify(Mt[i, j] * J[i, j] - 1) == 0) for i in range(n) for j in range(n))
        ctx.check(good, "elementwise-reciprocal" if recip else key + ":value", lambda: "%s: matrix %s, the derivatives of the new coordinates are %s" % (key, Mt.tolist(), right.tolist()))
        # inv() gives back the derivatives of the old coordinates
        ctx.check(all(sp.simplify(It[i, j] - J[i, j]) == 0 for i in range(n) for j in range(n)) or good and (sp.simplify(Mt * It - sp.eye(n))).is_zero_matrix, key + ":inverse",
                  lambda: "%s: inverse %s, the derivatives of the old coordinates are %s" % (key, It.tolist(), J.tolist()))
        ctx.outcome(str(Mt)[:100])
        # two matrices do not share their inverse
        m2 = TransformationMatrix.from_new2old(list(CH["shear"][0]), CH["shear"][1], CH["shear"][2])
        m2.inv()
        ctx.check(m.inv() == inv and (name == "shear" or m2.inv() != inv), key + ":own", "%s: inverse of another matrix" % key)
        ctx.raises(NotImplementedError, lambda: TransformationMatrix.from_old2new(old, new, old2new=n2o), key + ":old2new", "from_old2new")
        ctx.trace()
    for bad in ([1, 2], [X[0]], [[[1, 2], [3, 4]], [[1, 2], [3, 4]]], 5):
        ctx.step()
        ctx.raises((ValueError, TypeError), lambda: TransformationMatrix(bad, [X[0]], [P]), "matrix:rank:%s" % (bad,), "matrix from %s" % (bad,))
    for good in ([[1, 2], [3, 4]], [[X[0], 0, 1], [0, X[1], 2]], [[5]], sp.Array([[1, X[0]], [2, 3]])):
        m = TransformationMatrix(good, [X[0]], [P])
        ctx.step()
        ctx.check(m.tolist() == (good if isinstance(good, list) else good.tolist()), "matrix:entries", "entries of %s" % (good,))


def prim(ctx):
    qs = [(3 * u.km, 3000.0), (-2.5 * u.g, -2.5e-3), (1 * u.hour, 3600.0), (180 * u.deg, np.pi), (1 * u.rad, 1.0), (0.3 * u.one, 0.3), (5 * u.percent, 0.05), (1 * u.mC, 1e-3), (2 * u.km / u.s, 2000.0),
          (1 * u.AU, 149597870700.0), (7 * u.K, 7.0), (1 * u.km ** 2, 1e6), (4.5, 4.5), (-3, -3), (0 * u.km, 0.0)]
    for n in (1, 2, 3):
        for c in itertools.product(range(len(qs)), repeat=n) if n < 3 else itertools.permutations(range(0, len(qs), 3), 3):
            got = primitive(*[qs[i][0] for i in c])
            ctx.step()
            ctx.state("primitive", c)
            ctx.check(isinstance(got, list) and len(got) == n and all(not isinstance(g, u.Quantity) and np.isclose(float(g), qs[i][1], rtol=1e-12) for g, i in zip(got, c)), "primitive:%s" % (c,),
                      lambda: "primitive(%s) = %s" % ([str(qs[i][0]) for i in c], got))
    a = primitive(np.array([1., 2.]) * u.km, [1, 2], None, "x")
    ctx.check(np.allclose(a[0], [1000, 2000]) and a[1] == [1, 2] and a[2] is None and a[3] == "x" and primitive() == [], "primitive:other", "arrays and other objects: %s" % a)
    ctx.trace()


def errors(ctx):
    for args in [()] + [a for n in (1, 2, 3) for a in itertools.product(("a", 404, None, 1.5), repeat=n)]:
        e = CoordinateError(*args)
        ctx.step()
        ctx.state("error", args)
        m = " ".join(str(i) for i in args)
        ctx.check(e.message == m and str(e) == repr(e) == "CoordinateError : " + m and isinstance(e, Exception), "errors:%s" % (args,), lambda: "CoordinateError%s prints %s" % (args, e))
    ctx.trace()


def run_case(case, ctx):
    if "const" in case:
        consts(case, ctx)
    elif "arrays" in case:
        arrays(ctx, case["arrays"])
    elif "matrix" in case:
        matrix(ctx)
    elif "large" in case:
        large(ctx)
    elif "prim" in case:
        prim(ctx)
    else:
        errors(ctx)
