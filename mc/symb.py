"""Helpers shared by the symbolic checks (these call the code under test)."""
import itertools

import numpy as np
import sympy as sp

from mc import curv
from mc.curv import Geo, close, configs, ev, worst
from mc.metrics import BIG, ENUM, FULLQ, SPECS, lookup, perturbed, perturbed2, small2, small2q

import einsteinpy.symbolic as es
from einsteinpy.symbolic import (ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor,
                                 RicciScalar, RicciTensor, RiemannCurvatureTensor, SchoutenTensor,
                                 StressEnergyMomentumTensor, WeylTensor)
from einsteinpy.symbolic.tensor import BaseRelativityTensor, Tensor, tensor_product

_geo = {}


def geo(spec, k=0):
    key = (spec.name, k)
    if key not in _geo:
        _geo[key] = Geo(spec, k)
    return _geo[key]


def metric(spec, form="ll"):
    """the metric of a spec, handed over in one of the forms the API accepts"""
    if form == "ll":
        return MetricTensor(spec.arr, spec.syms, name=spec.name)
    if form == "ll-array":
        return MetricTensor(sp.Array(spec.arr), tuple(spec.syms))
    if form == "uu":
        inv = sp.Matrix(spec.arr).inv().tolist()
        return MetricTensor(inv, spec.syms, config="uu", name=spec.name)
    if form == "changed":
        return MetricTensor(spec.arr, spec.syms, name=spec.name).change_config("uu")
    if form == "inv":
        return MetricTensor(spec.arr, spec.syms, name=spec.name).inv()
    if form == "invinv":
        return MetricTensor(spec.arr, spec.syms, name=spec.name).inv().inv()
    raise KeyError(form)


FORMS = ["ll", "ll-array", "uu", "changed", "inv", "invinv"]


def value(T, spec, k=0, extra=None):
    """numeric components of a tensor object at a point of the spec"""
    n = spec.n
    arr = T.tensor() if hasattr(T, "tensor") else T
    rank = len(T.config)
    pt = dict(spec.point(k))
    pt.update(extra or {})
    return ev(arr, (n,) * rank, spec.funcs, pt)


def attrs_ok(ctx, T, spec, cls, config, key):
    ctx.check(type(T) is cls, key + ":type", lambda: "%s is a %s" % (key, type(T).__name__))
    ctx.check(T.config == config, key + ":config", lambda: "%s has config %r, expected %r" % (key, T.config, config))
    ctx.check(T.order == len(config), key + ":order", lambda: "%s has order %r" % (key, T.order))
    ctx.check(tuple(T.symbols()) == tuple(spec.syms), key + ":syms", lambda: "%s has symbols %s" % (key, T.symbols()))


def cmpval(ctx, T, spec, k, ref, key, rtol=1e-9, extra=None):
    v = value(T, spec, k, extra)
    ctx.outcome(key.split(":")[0], np.round(np.real(v), 6).tobytes())
    return ctx.check(close(v, ref, rtol), key, lambda: "%s: %s" % (key, worst(v, ref)))


TWINS = ("sphere2", "skew2", "nil3", "frw3", "kasnerlike4")


def twins(spec):
    """metrics that agree with the spec in everything but one thing: the order of the coordinates, the assumptions on the
    symbols, the sign, the scale, the order of the rows"""
    n, a, s = spec.n, spec.arr, spec.syms
    rot = [list(p[1:]) + list(p[:1]) for p in spec.points]
    out = [curv.Spec(spec.name + "~rot", s[1:] + s[:1], a, rot, spec.params, spec.funcs)]
    new = {q: sp.Symbol(q.name, positive=True) for q in s}
    out.append(curv.Spec(spec.name + "~pos", [new[q] for q in s], [[e.xreplace(new) for e in r] for r in a], spec.points, spec.params))
    out.append(curv.Spec(spec.name + "~neg", s, [[-e for e in r] for r in a], spec.points, spec.params, spec.funcs))
    out.append(curv.Spec(spec.name + "~dbl", s, [[2 * e for e in r] for r in a], spec.points, spec.params, spec.funcs))
    out.append(curv.Spec(spec.name + "~rev", s[::-1], [r[::-1] for r in a[::-1]], [tuple(p)[::-1] for p in spec.points], spec.params, spec.funcs))
    return out


def twin_history(ctx, spec, do):
    """the spec, its twin under the same name, and the spec again (the same object and a fresh one)"""
    for tw in twins(spec):
        mk = lambda q: MetricTensor(q.arr, q.syms, name=spec.name)
        g = mk(spec)
        for q, h, label in ((spec, g, "1st"), (tw, mk(tw), "twin"), (spec, g, "again"), (spec, mk(spec), "fresh")):
            do(q, h, "%s:%s" % (tw.name, label))
            ctx.trace()


def same_coords_pairs(names):
    """ordered pairs of different specs over the same coordinate symbols"""
    for p, q in itertools.permutations(names, 2):
        if tuple(lookup(p).syms) == tuple(lookup(q).syms):
            yield p, q
