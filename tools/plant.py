#!/usr/bin/env python3
"""plant.py ID [--check] [--nobuild]: confirm planted bug seeded/ID against /repo (development tool; no check uses it).

With local edits in /repo: they become seeded/ID/patch.diff and are undone again.  Then: demo on the clean tree, apply, build,
stable tests, demo, optionally the property's quick check, and reverse the patch."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
d = os.path.join(V, "seeded", pid)
os.makedirs(d, exist_ok=True)
patch = os.path.join(d, "patch.diff")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd="/repo", capture_output=True, text=True, **kw)


diff = sh("git diff").stdout
if diff:
    open(patch, "w").write(diff)
    assert sh("git apply -R " + patch).returncode == 0
assert not sh("git diff").stdout
demo = "timeout 300 bash %s/demo.sh" % d
r = sh("bash /opt/vp/build.sh")
assert r.returncode == 0, r.stdout + r.stderr
r = sh(demo)
print("demo clean:", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
a = sh("git apply " + patch)
assert a.returncode == 0, a.stderr
try:
    r = sh("bash /opt/vp/test.sh /tmp/plant.json")
    t = json.load(open("/tmp/plant.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    missing = stable - set(t["passed"])
    print("build+tests:", r.returncode, "stable failures:", sorted(missing)[:8], len(missing), r.stdout[-1500:] if not t["passed"] else "")
    r = sh(demo)
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-400:])
    if "--check" in sys.argv:
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = subprocess.run(["python3", "run_check.py", prop], cwd=V, capture_output=True, text=True)
        print("check", prop, r.returncode, (r.stdout + r.stderr)[-900:])
finally:
    print("undo:", sh("git apply -R " + patch).returncode, sh("git status --short").stdout)
    sh("bash /opt/vp/build.sh")
