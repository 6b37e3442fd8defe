"""Entry point: run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from mc import core
    replay = None
    if a.replay:
        d = json.load(open(a.replay))
        replay, tier = d["case"], d["tier"]
    name = "checks." + a.property.lower()
    try:
        mod = importlib.import_module(name)
    except ModuleNotFoundError as e:
        if e.name in (name, "checks"):
            raise
        mod = None
        err = e
    except Exception as e:  # the code under test does not even import
        mod = None
        err = e
    if mod is None:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-import.json" % a.property)
        json.dump({"property": a.property, "tier": tier, "case": "import", "what": repr(err)}, open(path, "w"))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        print("  importing the code under test failed: %r" % (err,))
        return 1
    import einsteinpy
    import mc.fastunits
    assert os.path.realpath(einsteinpy.__file__).startswith("/repo/src/"), einsteinpy.__file__
    return core.main(mod, tier, seed, replay)


if __name__ == "__main__":
    sys.exit(main())
