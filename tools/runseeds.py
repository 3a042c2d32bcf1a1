#!/usr/bin/env python3
"""Runs the check of each planted bug's property with the bug applied: tools/runseeds.py [ID...]"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "/repo not clean"
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    t = time.time()
    try:
        r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), prop, "quick"], cwd=ROOT, capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION property=%s " % prop)]
    verdict = "caught" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode
    print("%-22s %s %s %.0fs %s" % (i, prop, verdict, time.time() - t, v[0][:150] if v else r.stdout[-300:]), flush=True)
