#!/usr/bin/env python3
"""tools/mutate.py CHECK[,CHECK] FILE OLD NEW [N]: applies a textual change to a scratch copy of /repo and runs checks on
it (development aid). Prints the checks' verdicts."""
import os
import subprocess
import sys
R = "/tmp/mrepo"
if not os.path.exists(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
subprocess.check_call("cd %s && git fetch -q && git checkout -q -f origin/HEAD && git clean -fdq" % R, shell=True)
checks, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
p = os.path.join(R, f)
s = open(p).read()
assert old in s, "text not found in " + f
parts = s.split(old)
s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
open(p, "w").write(s)
for c in checks.split(","):
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "check.py"), c],
                       env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
    o = [x for x in r.stdout.splitlines() if not x.startswith("  at")]
    print(c, "exit", r.returncode, "|", "\n   ".join(x[:260] for x in o[:7]), r.stderr[-500:])
