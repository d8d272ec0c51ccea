#!/usr/bin/env python3
"""tools/seedtest.py ID...: confirms planted changes: demo passes on the clean tree; with the patch it builds, the
stable tests pass, the demo fails. Also runs the property's check. Undoes the patch (development aid)."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
assert not sh("git -C /repo status --porcelain").stdout.strip()
ids = sys.argv[1:]
sh("bash /opt/vp/build.sh")
ok0 = {}
for i in ids:
    r = sh("bash %s/seeded/%s/demo.sh" % (H, i), cwd="/repo")
    ok0[i] = r.returncode
    if r.returncode:
        print(i, "DEMO FAILS ON CLEAN", r.stdout[-600:], r.stderr[-600:])
for i in ids:
    if ok0[i]:
        continue
    d = "%s/seeded/%s" % (H, i)
    meta = json.load(open(d + "/meta.json"))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH", r.stderr); continue
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "BUILD", (r.stdout + r.stderr)[-1500:]); continue
        r = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        t = json.load(open("/tmp/seed_t.json"))
        d1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 %s/check.py %s" % (H, meta["property"]))
        v = [x for x in c.stdout.splitlines() if x.startswith("  ")][:1]
        print(i, "tests", len(t["passed"]), t["failed"][:3], "| demo", d1.returncode, (d1.stdout + d1.stderr)[-60:].replace("\n", " "), "|", meta["property"], "CAUGHT" if c.returncode == 1 else "missed rc=%d" % c.returncode, v)
    finally:
        clean()
sh("bash /opt/vp/build.sh")
