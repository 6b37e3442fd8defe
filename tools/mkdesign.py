"""Write DESIGN.md from design_text.py, props_table.py, the checks' own BOUND/ASSUMPTIONS and the seeded changes."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import design_text as D


def consts(f):
    t = ast.parse(open(f).read())
    out = {"doc": ast.get_docstring(t)}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUND", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
bugs = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((f.split("/")[-2], m))
out = [D.HEAD, "## Properties and how each is decided\n"]
for p in props:
    pid = p["id"]
    if pid in na:
        continue
    c = consts(os.path.join(V, "checks", pid.lower() + ".py"))
    o = D.ORACLE[pid]
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("* explored: %s" % o[1])
    out.append("* oracle: %s" % o[0])
    out.append("* bound (quick): %s" % c["BOUND"]["quick"])
    if c["BOUND"].get("thorough"):
        out.append("* bound (thorough): %s" % c["BOUND"]["thorough"])
    for a in c.get("ASSUMPTIONS", []):
        out.append("* assumption: %s" % a)
    out.append("* seeded changes caught: %s\n" % (", ".join(b for b, _ in bugs.get(pid, [])) or "none planted"))
out.append(D.FIND)
for k, v in na.items():
    out.append("* %s: %s" % (k, v))
out.append(D.TAIL)
out.append("| change | property / check | needs |\n|---|---|---|")
for pid in sorted(bugs):
    for b, m in bugs[pid]:
        out.append("| %s | %s | %s |" % (b, pid, m["needs"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
