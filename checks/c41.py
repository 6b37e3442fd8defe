"""Compiled, compiler disabled, compiler absent: the same results from the same calls in three interpreters."""
import os
import pickle
import subprocess
import sys
import numpy as np

PID = "C41"
LEVEL = "model_checking"
BOUND = {"quick": "every compiled function (9 coordinate functions with floating-point and with integer arguments, 4-velocity, fractal) and the classes, metrics, geodesics using them on a grid of about 12000 calls, points on the rotation axis, on the ring and inside it included, each in 3 interpreters (numba present, disabled, "
                  "absent); import of every module of the package; 5 forms of the decorator", "thorough": "the same calls"}
ASSUMPTIONS = []
MODES = ("jit", "disabled", "absent")
WORKER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "nojit_worker.py")


def cases(tier):
    return [dict(name=g, group=g) for g in ("import", "utils", "classes", "fractal")]


def run_case(case, ctx):
    ps = {}
    for m in MODES:
        env = {k: v for k, v in os.environ.items() if k not in ("NUMBA_DISABLE_JIT", "PYTHONPATH")}
        ps[m] = subprocess.Popen([sys.executable, "-B", WORKER, m, case["group"], ctx.tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    got = {}
    for m, p in ps.items():
        out, err = p.communicate()
        if not ctx.check(p.returncode == 0 and out, "%s:%s:runs" % (case["name"], m), lambda: "with numba %s the code does not run: %s" % (m, err.decode()[-300:])):
            return
        got[m] = pickle.loads(out)
    base = got["jit"][0]
    for m in MODES:
        res, warned = got[m]
        ctx.check((len(warned) > 0) == (m == "absent"), "%s:%s:warning" % (case["name"], m), lambda: "with numba %s: warnings %s" % (m, warned))
        ctx.check(set(res) == set(base), "%s:%s:keys" % (case["name"], m), "different calls")
        for k, v in res.items():
            ctx.state(m, k)
            ctx.step()
            b = base[k]
            key = "%s:%s" % (case["name"], k)
            ctx.outcome(str(v)[:60])
            if isinstance(v, str) or isinstance(b, str):
                ctx.check(v == b, key, lambda: "%s: %s with numba %s, %s compiled" % (key, v, m, b))
                ctx.check(not case["group"] == "import" or not isinstance(v, str), key + ":error", lambda: "%s with numba %s: %s" % (key, m, v))
                continue
            x, y = np.array(v), np.array(b)
            ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9 * (1e-30 + np.max(np.abs(y)) if y.size else 0), equal_nan=True) if case["group"] != "fractal" else \
                x.shape == y.shape and np.mean(np.abs(x - y) > 1e-9) < 0.02
            ctx.check(ok, key, lambda: "%s: %s with numba %s, %s compiled" % (key, v[:8], m, b[:8]))
        ctx.trace()
    if case["group"] == "import":
        ctx.check(got["absent"][0]["identity"] == [1.0, 1.0, 1.0], "import:identity", "without numba the decorator changes the function")
