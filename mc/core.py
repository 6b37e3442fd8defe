"""Shared machinery: enumerate cases, run each on the real code in worker processes, collect states/transitions,
match violations against the known-findings file, write evidence and replay files."""
import hashlib
import json
import multiprocessing as mpc
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 400
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # for tools/mutate.py only: stop at the first violation


class CaseTimeout(Exception):
    pass


def h(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()


class Ctx:
    """What one case (one explored history / configuration) saw."""

    def __init__(self, pid, case, tier):
        self.pid, self.case, self.tier = pid, case, tier
        self.states, self.outcomes = set(), set()
        self.transitions = 0
        self.traces = 0
        self.checks = 0
        self.violations = []
        self.known_seen = []

    def state(self, *key):
        """Register a visited state; True when it is new."""
        k = h(*key)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        """n calls into the implementation (transitions)"""
        self.transitions += n

    def trace(self, n=1):
        """one complete history run on the implementation and compared with the reference model"""
        self.traces += n

    def outcome(self, *key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(h(*key))

    def check(self, ok, key, what):
        """Evaluate the oracle once. key: stable identity of the failing behaviour; what: text (or callable)"""
        self.checks += 1
        if not ok:
            if len(self.violations) < 50:
                self.violations.append({"key": key, "what": what() if callable(what) else what})
        return bool(ok)

    def raises(self, exc, fn, key, what):
        """fn() must raise exc"""
        self.step()
        try:
            r = fn()
        except exc:
            self.outcome("raised", key)
            return self.check(True, key, what)
        except Exception as e:  # wrong exception
            return self.check(False, key, "%s: raised %s instead" % (what, type(e).__name__))
        return self.check(False, key, "%s: accepted (returned %s)" % (what, type(r).__name__))


_MOD = None
_TIER = "quick"


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(idx_case):
    idx, case = idx_case
    ctx = Ctx(_MOD.PID, case, _TIER)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _MOD.run_case(case, ctx)
    except CaseTimeout:
        ctx.check(False, "timeout:%s" % (case_name(case),), "did not finish within %d s" % CASE_LIMIT_S)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        ctx.check(False, "exception:%s:%s" % (case_name(case), type(e).__name__), " | ".join(tb[-6:]))
    finally:
        signal.alarm(0)
    return idx, dict(states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions, traces=ctx.traces,
                     checks=ctx.checks, violations=ctx.violations, wall=time.time() - t0)


def case_name(case):
    if isinstance(case, dict):
        return str(case.get("name", json.dumps(case, sort_keys=True, default=str)))[:160]
    return str(case)[:160]


def load_known():
    """lines 'known: property=<id> key=<key> <text>' ; 'fixed: ...' lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = line.split(None, 3)
                pid = f[1].split("=", 1)[1]
                key = f[2].split("=", 1)[1]
                out[(pid, key)] = f[3] if len(f) > 3 else ""
    return out


def main(mod, tier, seed, replay=None):
    global _MOD, _TIER
    _MOD, _TIER = mod, tier
    t0 = time.time()
    cases = list(mod.cases(tier))
    if replay is not None:
        cases = [c for c in cases if case_name(c) == replay]
        if not cases:
            print("no such case: %s" % replay)
            return 2
    order = list(enumerate(cases))
    # order of execution does not change what is explored; the seed only shuffles it
    random.Random(seed).shuffle(order)
    warm = getattr(mod, "warm", None)
    agg = dict(states=set(), outcomes=set(), transitions=0, traces=0, checks=0)
    viol = {}
    res_idx = {}
    warm_error = None
    if warm:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                warm()
        except Exception as e:
            warm_error = e
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(cases)))
    if nproc > 1:
        ctxm = mpc.get_context("fork")
        with ctxm.Pool(nproc) as pool:
            for idx, r in pool.imap_unordered(run_one, order, chunksize=1):
                res_idx[idx] = r
                if FAILFAST and any((mod.PID, v["key"]) not in load_known() for v in r["violations"]):
                    pool.terminate()
                    break
    else:
        for oc in order:
            idx, r = run_one(oc)
            res_idx[idx] = r
    slow = sorted(((r["wall"], case_name(cases[i])) for i, r in res_idx.items()), reverse=True)[:3]
    for i in sorted(res_idx):
        r = res_idx[i]
        agg["states"] |= r["states"]
        agg["outcomes"] |= r["outcomes"]
        for k in ("transitions", "traces", "checks"):
            agg[k] += r[k]
        for v in r["violations"]:
            viol.setdefault(v["key"], dict(v, case=case_name(cases[i])))
    known = load_known()
    new, seen_known = [], []
    for key, v in viol.items():
        if (mod.PID, key) in known:
            seen_known.append((key, known[(mod.PID, key)]))
        else:
            new.append(v)
    wall = time.time() - t0
    if replay is None:
        ev = {
            "property": mod.PID, "tier": tier, "seed": seed, "level": mod.LEVEL,
            "coverage": {
                "states": len(agg["states"]), "transitions": agg["transitions"],
                "traces_validated_against_impl": agg["traces"], "oracle_evaluations": agg["checks"],
                "distinct_outcomes": len(agg["outcomes"]), "cases": len(cases),
                "exhaustive": True, "bound": getattr(mod, "BOUND", {}).get(tier, getattr(mod, "BOUND", {}).get("quick", "")),
                "samples": [case_name(c) for c in cases[:3]] + [case_name(c) for c in cases[-2:]],
                "binding": getattr(mod, "BINDING", "every transition is a call into the code in /repo/src; the model is only the oracle"),
            },
            "wall_s": round(wall, 2),
            "violations": len(new),
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.PID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s tier=%s cases=%d states=%d transitions=%d traces=%d oracle_evaluations=%d outcomes=%d wall=%.1fs slowest=%s" % (
        mod.PID, tier, len(cases), len(agg["states"]), agg["transitions"], agg["traces"], agg["checks"],
        len(agg["outcomes"]), wall, [(round(a, 1), b[:60]) for a, b in slow]))
    for key, text in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (mod.PID, text))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in new[:10]:
            path = os.path.join(rd, "%s-%s.json" % (mod.PID, h(v["key"])))
            with open(path, "w") as f:
                json.dump({"property": mod.PID, "tier": tier, "seed": seed, "case": v["case"], "key": v["key"],
                           "what": v["what"], "replay_cmd": "./check %s --replay %s" % (mod.PID, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (mod.PID, path))
            print("  key=%s" % v["key"])
            print("  %s" % (str(v["what"])[:600],))
        if len(new) > 10:
            print("  ... and %d more distinct violations" % (len(new) - 10))
        return 1
    return 0
