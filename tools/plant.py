#!/usr/bin/env python3
"""plant.py SPEC.py [--notest]: makes /verif/seeded/<id> out of a description of a planted bug.

The spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], PKG and DEMO (a Go test
whose TestDemo* fails with the change). The change is confirmed in /repo itself, which has to be
clean, and undone afterwards: it builds, the stable tests pass, the demonstration fails with it
and passes without it."""
import json, os, runpy, shutil, subprocess, sys, tempfile

spec = runpy.run_path(sys.argv[1])
ID, REPO = spec["ID"], "/repo"
run = lambda cmd, **k: subprocess.run(cmd, cwd=REPO, capture_output=True, text=True, **k)
assert not run(["git", "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
out = "/verif/seeded/" + ID
if os.path.isdir(out):
    shutil.rmtree(out)
os.makedirs(out)
pkg = spec["PKG"]
open(out + "/demo_test.go.txt", "w").write(spec["DEMO"].lstrip())
open(out + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds; runs the test beside this script inside the package
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}}}' "$PWD{'' if pkg == '.' else '/' + pkg}" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo' ./{pkg}
""")
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)

def demo(what, want_ok):
    r = run(["bash", out + "/demo.sh"])
    ok = r.returncode == 0
    if ok != want_ok:
        print(r.stdout[-3000:], r.stderr[-3000:])
        sys.exit(f"{ID}: the demonstration exits {r.returncode} {what}")
    if not ok and "FAIL" not in r.stdout:
        print(r.stdout[-2000:], r.stderr[-2000:])
        sys.exit("no FAIL")
    if not ok:
        print("\n".join(l for l in r.stdout.splitlines() if l.strip())[:600])
try:
    demo("on the unchanged tree", True)
    for f, old, new in spec["EDITS"]:
        p = REPO + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, f"{f}: {s.count(old)} times: {old}"
        line = s[:s.index(old)].count("\n") + 1
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "diff"]).stdout
    open(out + "/patch.diff", "w").write(diff)
    # which original lines are changed
    for f, old, new in spec["EDITS"]:
        s = run(["git", "show", "HEAD:" + f]).stdout
        a = s[:s.index(old)].count("\n") + 1
        b = a + old.rstrip("\n").count("\n")
        bl = run(["git", "blame", "-s", "-L", f"{a},{b}", "HEAD", "--", f]).stdout.splitlines()
        mine = [l for l in bl if not l.startswith("^")]
        print(f"{f}:{a}-{b}: {len(bl) - len(mine)} original lines, {len(mine)} of ours")
    r = run(["bash", "/opt/vp/build.sh"])
    if r.returncode: sys.exit("does not build:\n" + r.stdout + r.stderr)
    demo("with the change", False)
    if "--notest" not in sys.argv:
        t = "/tmp/plant_out.json"
        run(["bash", "/opt/vp/test.sh", t])
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(t))
        def names(x):
            return x
        stable = base.get("stable") or base.get("tests") or base.get("passed") or base
        passed = set(res.get("passed", []))
        missing = [x for x in stable if x not in passed]
        if missing: sys.exit(f"stable tests fail: {missing[:10]}")
        print("stable tests pass", len(passed))
    print("OK", ID)
except BaseException:
    shutil.rmtree(out)
    raise
finally:
    run(["git", "checkout", "--", "."])
