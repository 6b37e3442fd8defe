"""Dual numbers: exact derivative of every expression; metric derivatives and Jacobians."""
import itertools
import math
import numpy as np
from einsteinpy.utils.dual import DualNumber, _deriv, _diff_g, _jacobian_g
from mc.geo import *
from mc.geo import _mat

PID = "C29"
LEVEL = "model_checking"
BOUND = {"quick": "every expression of depth <= 2 (3 for the unary chains) over 7 operands (two dual variables with different values and derivatives, a constant dual, int, float, numpy float, "
                  "negative), 4 binary operators with dual or plain number on either side and 12 unary operations, explored as a state graph with equal states merged; "
                  "all 10 entries x 4 coordinates of 16 built-in and 6 user metrics at 15 points; 17 functions in each of the 10 components x 4 coordinates at their zeros and extrema", "thorough": "depth 3 with a reduced operand set"}
ASSUMPTIONS = ["values and derivatives agree with complex-step evaluation to 1e-8; 0/0 and arguments outside the real domain of a function are excluded"]

H = 1e-150


class Node:
    """an expression: value in the code (dual or plain number) and as complex-step reference"""
    __slots__ = ("v", "c", "s")

    def __init__(self, v, c, s):
        self.v, self.c, self.s = v, c, s


def leaf(name, val, der):
    return Node(DualNumber(val, der), complex(val, der * H), name)


def cpow(c, p):
    if isinstance(p, int) or p == int(p):
        p = int(p)
        r = 1 + 0j
        for _ in range(abs(p)):
            r *= c
        return r if p >= 0 else 1 / r
    return np.exp(p * np.log(c))


UN = {
    "neg": (lambda x: -x, lambda c: -c, None),
    "sin": (np.sin, np.sin, None), "cos": (np.cos, np.cos, None), "tan": (np.tan, lambda c: np.sin(c) / np.cos(c), lambda v: abs(math.cos(v)) > 1e-3),
    "log": (np.log, np.log, lambda v: v > 1e-9), "exp": (np.exp, np.exp, lambda v: v < 50),
}
for _p in (2, 3, 1, -1, -2, 2.0, 0.5, 1.5, -0.5):
    UN["**%s" % _p] = ((lambda p: lambda x: x ** p)(_p), (lambda p: lambda c: cpow(c, p))(_p),
                       (lambda p: lambda v: (v > 1e-9 if p != int(p) else (abs(v) > 1e-9 or p >= 1)))(_p))
for _p in (0, 0.0):
    UN["**%s" % _p] = ((lambda p: lambda x: x ** p)(_p), lambda c: 1 + 0j, None)
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def leaves(x):
    return [leaf("x", x, 1.0), leaf("y", 0.6 - x / 3, -2.0), leaf("c", 1.3, 0.0), Node(3, 3 + 0j, "3"), Node(-1.5, -1.5 + 0j, "-1.5"),
            Node(np.float64(0.7), 0.7 + 0j, "np.float64(0.7)"), Node(np.int64(2), 2 + 0j, "np.int64(2)")]


def isdual(n):
    return isinstance(n.v, DualNumber)


def snap(n):
    return (n.v.val, n.v.deriv) if isdual(n) else n.v


def judge(ctx, n, key):
    """compare one new node with its reference; the key names the operation only (not the operands)"""
    if not ctx.check(isinstance(n.v, DualNumber), key + ":type", lambda: "%s gives %s" % (n.s, type(n.v).__name__)):
        return False
    val, der = n.c.real, n.c.imag / H
    s = abs(val) + abs(der) + 1
    ok = abs(n.v.val - val) <= 1e-8 * s and abs(n.v.deriv - der) <= 1e-8 * s
    ctx.outcome(round(val, 6), round(der, 6))
    return ctx.check(ok, key, lambda: "%s: value %.12g derivative %.12g, expected %.12g and %.12g" % (n.s, n.v.val, n.v.deriv, val, der))


def unary(ctx, nodes):
    out = []
    for n in nodes:
        if not isdual(n):
            continue
        for name, (f, g, dom) in UN.items():
            if dom and not (dom(n.c.real) and (name == "tan" or abs(n.c.real) > 1e-2 or "(" not in n.s)):
                continue
            before = snap(n)
            v = f(n.v)
            ctx.step()
            m = Node(v, g(n.c), "%s(%s)" % (name, n.s))
            if not (abs(m.c.real) < 1e3 and abs(m.c.imag / H) < 1e4):
                continue
            ctx.check(snap(n) == before, name + ":pure", lambda: "%s changes its operand" % m.s)
            if judge(ctx, m, "unary:" + name):
                out.append(m)
    return out


def binary(ctx, A, B):
    out = []
    for a in A:
        for b in B:
            if not (isdual(a) or isdual(b)):
                continue
            for name, f in BIN.items():
                if name == "/" and abs(b.c.real) < (1e-2 if "(" in b.s else 1e-6):
                    continue
                sa, sb = snap(a), snap(b)
                v = f(a.v, b.v)
                ctx.step()
                m = Node(v, f(a.c, b.c), "(%s %s %s)" % (a.s, name, b.s))
                if not (abs(m.c.real) < 1e3 and abs(m.c.imag / H) < 1e4):
                    continue
                if (snap(a), snap(b)) != (sa, sb):
                    ctx.check(False, name + ":pure", "%s changes an operand" % m.s)
                kind = ("dual" if isdual(a) else type(a.v).__name__) + name + ("dual" if isdual(b) else type(b.v).__name__)
                if judge(ctx, m, "binary:" + kind):
                    out.append(m)
    return out


def merge(ctx, nodes, seen):
    out = []
    for n in nodes:
        k = (round(n.c.real, 9), round(n.c.imag / H, 9))
        if k not in seen:
            seen.add(k)
            ctx.state(k)
            out.append(n)
    return out


def graph(x, tier, ctx):
    L = leaves(x)
    seen = set()
    merge(ctx, [n for n in L if isdual(n)], seen)
    l1 = merge(ctx, unary(ctx, L) + binary(ctx, L, L), seen)
    base = L + l1
    l2 = merge(ctx, unary(ctx, l1), seen)
    # a binary operation needs a new operand on at least one side
    l2 += merge(ctx, binary(ctx, l1, base) + binary(ctx, L, l1), seen)
    merge(ctx, unary(ctx, l2[:: 1 if tier == "thorough" else 7]), seen)
    if tier == "thorough":
        merge(ctx, binary(ctx, l2, L[:4]) + binary(ctx, L[:4], l2), seen)
    ctx.trace(len(seen))


def cases(tier):
    out = [dict(name="graph:%g" % x, x=x) for x in (0.7, -1.3, 2.0, 0.0, 1e-3, 11.0)]
    out += [dict(name="metric:" + label(k, p), kind=k, prm=p) for k, p in named() + [(k, USER[k][1]) for k in USER]]
    out += [dict(name="special:%d%d" % ij, special=ij) for ij in itertools.combinations_with_replacement(range(4), 2)]
    return out + [dict(name="misc", misc=1)]


# name -> (function of one coordinate and one parameter, its derivative); the points are the zeros and extrema of the functions
SPECIAL = {"sin": (lambda y, k: np.sin(y), lambda y, k: np.cos(y)), "cos": (lambda y, k: np.cos(y), lambda y, k: -np.sin(y)), "id": (lambda y, k: y, lambda y, k: 1.0),
           "shift": (lambda y, k: y - k, lambda y, k: 1.0), "square": (lambda y, k: y ** 2, lambda y, k: 2 * y), "cube": (lambda y, k: k * y ** 3, lambda y, k: 3 * k * y * y),
           "cosm1": (lambda y, k: np.cos(y) - 1, lambda y, k: -np.sin(y)), "exp": (lambda y, k: np.exp(k * y), lambda y, k: k * np.exp(k * y)),
           "expm1": (lambda y, k: 1 - np.exp(-y), lambda y, k: np.exp(-y)), "tan": (lambda y, k: np.tan(k * y), lambda y, k: k / np.cos(k * y) ** 2),
           "quot": (lambda y, k: y / (y + 2), lambda y, k: 2 / (y + 2) ** 2), "rquot": (lambda y, k: k / (1 + y ** 2), lambda y, k: -2 * k * y / (1 + y * y) ** 2),
           "log": (lambda y, k: np.log(y * y + 1), lambda y, k: 2 * y / (y * y + 1)), "half": (lambda y, k: (y ** 2 + 1) ** 0.5, lambda y, k: y / math.sqrt(y * y + 1)),
           "two": (lambda y, k: np.sin(y) * np.cos(y) * k, lambda y, k: k * math.cos(2 * y)), "const": (lambda y, k: k, lambda y, k: 0.0), "zero": (lambda y, k: 0, lambda y, k: 0.0)}


def special(case, ctx):
    """one component that vanishes (or is extremal) at the point, alone, on a constant background or beside its equal"""
    i, j = case["special"]
    for name, (F, dF) in SPECIAL.items():
        for c in range(4):
            for bg in ("none", "eta", "twin", "product"):
                def f(x, k):
                    d = {} if bg == "none" else {(0, 0): -1, (1, 1): 1, (2, 2): 1.0, (3, 3): 1}
                    if bg == "twin":
                        d[((j + 1) % 4, (j + 1) % 4)] = F(x[(c + 1) % 4], k)
                    e = F(x[c], k)
                    d[(i, j)] = e * x[(c + 2) % 4] if bg == "product" else e
                    return _mat({tuple(sorted(q)): v for q, v in d.items()})
                for y, k in itertools.product((0.0, 1.0, -1.0, math.pi / 2), (1.0, -0.5)):
                    for q in ([y] * 4, [y if n == c else 0.6 + n for n in range(4)], [y if n == c else 0.0 for n in range(4)]):
                        for w in range(4):
                            want = np.zeros((4, 4))
                            if bg == "twin" and w == (c + 1) % 4:
                                want[(j + 1) % 4, (j + 1) % 4] = dF(q[w], k)
                            v = (dF(q[c], k) if w == c else 0.0) * (q[(c + 2) % 4] if bg == "product" else 1.0) + (float(F(q[c], k)) if bg == "product" and w == (c + 2) % 4 else 0.0)
                            want[i, j] = want[j, i] = v
                            J = np.asarray(_jacobian_g(f, (k,), np.array(q), w), dtype=float)
                            ctx.step()
                            key = "special:%d%d:%s(x%d):%s:d%d" % (i, j, name, c, bg, w)
                            ctx.state(key, y, k)
                            ctx.outcome(np.round(J, 7).tobytes())
                            sc = 1e-10 * (1 + abs(want).max())
                            ctx.check(J.shape == (4, 4) and np.all(abs(J - want) <= sc), key, lambda: "%s at %s, k=%s: %s, expected %s" % (key, q, k, J.tolist(), want.tolist()))
                            d = _diff_g(f, (k,), q, (i, j), w)
                            ctx.check(abs(float(d) - v) <= sc, key + ":diff", lambda: "%s at %s: %s, expected %s" % (key, q, d, v))
                ctx.trace()


def mixed(x, *p):
    """entries of every kind a user may return: ints, floats, numpy floats, dual numbers"""
    return _mat({(0, 0): -1, (1, 1): x[1], (2, 2): np.float64(2.5), (3, 3): 1.5, (0, 1): x[0] * x[3], (1, 2): 0, (2, 3): x[2] - p[0]})


def mixed_float(x, *p):
    return np.array(mixed([float(v) for v in x], *p), dtype=float)


def metric_case(case, ctx):
    kind, prm = case["kind"], tuple(case["prm"])
    f, r = fun(kind), ref(kind, prm)
    for rr in (2.3, 3.0, 7.5, 100.0, 3e6):
        for th in (0.3, np.pi / 2, 2.0, 3.0):
            for t, ph in ((0.0, 0.0), (1.5, -2.0)) + (((-4e6, 9e3),) if rr in (3.0, 3e6) and th in (0.3, 2.0) and kind != "expanding" else ()):
                q = np.array([t, rr, th, ph])
                want = r.dg(q)
                g = abs(r.g(q))
                ctx.state(kind, prm, rr, th, t)
                for w in range(4):
                    J = _jacobian_g(f, prm, q.copy(), w)
                    ctx.step()
                    sc = 1e-9 * (abs(want[w]) + np.sqrt(np.outer(np.diag(g), np.diag(g))) * 1e-3 + 1e-12)
                    J = np.asarray(J, dtype=float)
                    key = "%s:jacobian:%d" % (case["name"], w)
                    if not ctx.check(J.shape == (4, 4), key + ":shape", "shape %s" % (J.shape,)):
                        continue
                    ctx.outcome(np.round(J, 8).tobytes())
                    ctx.check(np.all(abs(J - want[w]) <= sc), key, lambda: "%s at %s, d/dx%d: %s, expected %s" % (case["name"], q, w, J.tolist(), want[w].tolist()))
                    for i, j in itertools.product(range(4), repeat=2):
                        d = _diff_g(f, prm, list(q), (i, j), w)
                        ctx.step()
                        ctx.check(abs(float(d) - want[w][i, j]) <= sc[i, j], "%s:diff:%d%d%d" % (case["name"], i, j, w),
                                  lambda: "%s at %s: d g^%d%d/dx%d = %s, expected %.12g" % (case["name"], q, i, j, w, d, want[w][i, j]))
                ctx.trace()


def misc(ctx):
    for x in (0.7, -1.3, 2.0):
        for name, (f, g, dom) in UN.items():
            if dom and not dom(x):
                continue
            ctx.step()
            ctx.state("deriv", name, x)
            d = _deriv(f, x)
            ctx.check(abs(d - g(complex(x, H)).imag / H) < 1e-9 * (1 + abs(d)), "deriv:" + name, lambda: "derivative of %s at %g: %s" % (name, x, d))
        for const in (3, 2.5, np.float64(1.0)):
            ctx.check(_deriv(lambda y: const, x) == 0, "deriv:const", "derivative of a constant")
            ctx.step()
    # comparison
    vals = [(1.0, 0.0), (1.0, 2.0), (-1.0, 2.0), (1.0, -0.0)]
    for (a, b), (c, d) in itertools.product(vals, repeat=2):
        p, q = DualNumber(a, b), DualNumber(c, d)
        ctx.step(2)
        ctx.state("eq", a, b, c, d)
        ctx.check((p == q) is ((a, b) == (c, d)) and (p != q) is not (p == q), "eq", lambda: "%s == %s gives %s" % (p, q, p == q))
    # arrays of dual numbers behave element by element
    x, y = DualNumber(0.7, 1.0), DualNumber(2.0, -3.0)
    A = np.array([[x, 2.0], [y, x * y]], dtype=object)
    v = np.array([1.5, -2.0])
    w = A @ v
    ctx.step()
    ctx.check(abs(w[0].val - (1.05 - 4)) < 1e-12 and abs(w[0].deriv - 1.5) < 1e-12 and abs(w[1].val - (3.0 - 2.8)) < 1e-12 and abs(w[1].deriv - (-4.5 - 2 * (2.0 - 2.1))) < 1e-12,
              "array", lambda: "matrix product of dual numbers: %s" % (w,))
    s = np.sin(A[0, :1] * 2 + A[1, :1])
    ctx.check(abs(s[0].val - math.sin(3.4)) < 1e-12 and abs(s[0].deriv + math.cos(3.4)) < 1e-12, "array:sin", "sin of an array of dual numbers")
    # entries that do not depend on the coordinate, or are plain numbers
    q = [0.3, 1.2, -0.7, 2.0]
    want = np.zeros((4, 4, 4))
    want[1][1, 1] = 1
    want[0][0, 1] = want[0][1, 0] = 2.0
    want[3][0, 1] = want[3][1, 0] = 0.3
    want[2][2, 3] = want[2][3, 2] = 1
    for k in range(4):
        J = _jacobian_g(mixed, (0.5,), q, k)
        ctx.step()
        ctx.state("mixed", k)
        ctx.check(np.allclose(np.asarray(J, dtype=float), want[k], atol=1e-12), "mixed:%d" % k, lambda: "jacobian %d: %s" % (k, J))
        Jf = _jacobian_g(mixed, (0.5,), np.array(q), np.int64(k))
        ctx.check(np.allclose(np.asarray(Jf, dtype=float), want[k], atol=1e-12), "mixed:np:%d" % k, lambda: "jacobian %d with numpy input: %s" % (k, Jf))
    for bad in (-1, 4, 5, 1.5, -4, "1", None):
        ctx.raises(ValueError, lambda: _diff_g(FUN["Kerr"], (0.5,), q, (1, 1), bad), "wrt:%r" % (bad,), "differentiation with respect to coordinate %r" % (bad,))
        ctx.raises(ValueError, lambda: _jacobian_g(FUN["Kerr"], (0.5,), q, bad), "jwrt:%r" % (bad,), "jacobian with respect to coordinate %r" % (bad,))
    for bad in ((), (1,), (1, 1, 1), [1], (0, 1, 2, 3)):
        ctx.raises(ValueError, lambda: _diff_g(FUN["Kerr"], (0.5,), q, bad, 1), "indices:%d" % len(bad), "indices %r" % (bad,))
    for d in (DualNumber(1.5, -2.0), DualNumber(3, 4)):
        ctx.check(isinstance(d.val, float) and isinstance(d.deriv, float) and str(d.val) in str(d) and str(d.deriv) in str(d), "repr", "printed form %s" % d)


def run_case(case, ctx):
    if "x" in case:
        graph(case["x"], ctx.tier, ctx)
    elif "special" in case:
        special(case, ctx)
    elif "kind" in case:
        metric_case(case, ctx)
    else:
        misc(ctx)
