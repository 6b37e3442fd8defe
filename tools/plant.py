"""Developer tool: turn bug specifications into /verif/seeded/<id>/ after confirming them.

usage: plant.py SPEC.py [id ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
For each bug: scratch copy of /repo under /tmp, apply the edits, run the stable tests against the copy
(in a private mount namespace in which the copy is mounted at /repo), run the demo on both trees.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

DEMO_SH = """#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""

def ns(tree, cmd, timeout=600):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (tree, cmd)],
                          capture_output=True, text=True, timeout=timeout)

def one(bug):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    tree = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        for f, old, new, *nth in bug["edits"]:
            p = os.path.join(tree, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if nth:  # the n-th occurrence
                k = -1
                for _ in range(nth[0] + 1):
                    k = s.index(old, k + 1)
                with open(p, "w", newline="") as h:
                    h.write(s[:k] + new + s[k + len(old):])
                continue
            if s.count(old) != 1:
                return "edit does not match once (%d): %s :: %s" % (s.count(old), f, old[:60])
            with open(p, "w", newline="") as h:
                h.write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", tree, "diff"], capture_output=True).stdout
        # lines changed must be original ones
        nl, mine = 0, 0
        for f, *_ in bug["edits"]:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
            d0 = subprocess.run(["git", "-C", tree, "diff", "-U0", f], capture_output=True, text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                k = int(m.group(2) or 1)
                for i in range(int(m.group(1)), int(m.group(1)) + k):
                    nl += 1
                    mine += "4c9d02e" not in bl[i - 1][:10]
        if (mine or not nl) and "SEEDED" not in os.environ:
            return "changes %d lines, %d not original" % (nl, mine)
        dd = d + "/demo"
        os.mkdir(dd)
        open(dd + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(dd + "/demo.sh", "w").write(DEMO_SH)
        r = ns(tree, "bash %s/demo.sh" % dd)
        if r.returncode == 0:
            return "demo passes with the bug: " + r.stdout[-300:]
        msg = [l for l in (r.stdout + r.stderr).splitlines() if "Error" in l or "Exception" in l][-1:]
        if not any("AssertionError" in m for m in msg) and not bug.get("anyerr"):
            return "demo fails otherwise: " + (r.stdout + r.stderr)[-600:]
        r = subprocess.run(["bash", dd + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        if r.returncode:
            return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:]
        r = ns(tree, "bash /opt/vp/test.sh %s/out.json" % d)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out = json.load(open(d + "/out.json"))
        got = set(out.get("passed") or out.get("pass") or [])
        miss = base - got
        if miss:
            return "tests fail: " + ", ".join(sorted(miss)[:4])
        dst = os.environ.get("SEEDED", "/verif/seeded") + "/" + bug["id"]
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + "/patch.diff", "wb").write(patch)
        shutil.copy(dd + "/demo.py", dst); shutil.copy(dd + "/demo.sh", dst)
        os.chmod(dst + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return "PLANTED (%s)" % (msg[0][:150] if msg else "")
    except Exception as e:
        return "error %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for b, res in zip(bugs, ex.map(one, bugs)):
            print(b["id"], b["property"], res, flush=True)
