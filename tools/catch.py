#!/usr/bin/env python3
"""catch.py [-a] ID...: runs the quick check of each planted bug's property (-a: all checks) with the bug applied to /repo."""
import json, os, subprocess, sys, time
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir("/verif/seeded"))
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], check=True, capture_output=True, text=True).stdout
assert not git("status", "--porcelain").strip()
claimed = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    git("apply", d + "/patch.diff")
    try:
        for p in (claimed if every else [prop]):
            t = time.time()
            r = subprocess.run(["/verif/check.sh", p, "quick"], cwd="/verif", capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:36} {p} exit {r.returncode} {time.time()-t:5.1f}s {'CAUGHT' if r.returncode == 1 and v else 'missed'}", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
    finally:
        git("checkout", "--", ".")
