"""Developer tool: run checks against planted bugs, each in a private mount namespace.

usage: detect.py [-t tier] [-p Cxx[,Cyy]] [bug ...]    default: the bug's own property, quick tier, all bugs
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

ap = argparse.ArgumentParser()
ap.add_argument("-t", default="quick"); ap.add_argument("-p"); ap.add_argument("bugs", nargs="*")
a = ap.parse_args()
names = a.bugs or sorted(os.listdir(os.environ.get("SEEDED", "/verif/seeded")))
for n in names:
    s = os.environ.get("SEEDED", "/verif/seeded") + "/" + n
    prop = json.load(open(s + "/meta.json"))["property"]
    for p in (a.p.split(",") if a.p else [prop]):
        d = tempfile.mkdtemp(prefix="det_", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            subprocess.run(["git", "-C", d + "/repo", "apply", s + "/patch.diff"], check=True)
            subprocess.run("mkdir %s/verif && cd /verif && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C %s/verif" % (d, d), shell=True, check=True)
            t = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check %s --tier %s" % (d, d, p, a.t)],
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            print("%-28s %s %-7s rc=%d %5.0fs %s" % (n, p, "CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "BROKEN", r.returncode, time.time() - t, [l for l in (r.stdout + r.stderr).splitlines() if "what" in l.lower() or "VIOL" in l][:1]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
