"""Writes properties.jsonl and MANIFEST.json from the table below. A property is emitted when its check file exists
(or when it is listed as not applicable)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/einsteinpy/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[{"name": n, "where": S + w} for n, w in mech], observe=observe, technique=technique, note=note, na=na))


SYMT = "explicit-state exploration of the real code: exhaustive enumeration of metrics x construction routes x call histories, each result compared with an independent tensor-algebra model"
NUMT = "explicit-state exploration of the real code: exhaustive enumeration of a finite parameter/point/history alphabet, every result compared with an independent 40-digit reference model"
SYMN = "Exhaustive within the stated bound; symbolic results are judged by value at generic points (1e-9), so any algebraically equal form is accepted. Trusts sympy.diff, mpmath."
NUMN = "Exhaustive over the stated alphabet of parameters, points and histories; judged to rounding with conditioning taken into account. Trusts mpmath and numpy."
exec(open(os.path.join(V, "tools", "props_table.py")).read())


def main():
    out, checks, na = [], [], []
    for p in P:
        has = os.path.exists(os.path.join(V, "checks", p["pid"].lower() + ".py"))
        if not has and not p["na"]:
            continue
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
        out.append({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}})
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        if p["na"]:
            na.append({"property": p["pid"], "reason": p["na"]})
        else:
            checks.append({"property": p["pid"], "quick_cmd": "./check %s --tier quick" % p["pid"],
                           "thorough_cmd": "./check %s --tier thorough" % p["pid"],
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo; every check imports /repo/src directly. Known and fixed findings: known_findings.txt."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out:
        jsonschema.validate(o, sch)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(out), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
