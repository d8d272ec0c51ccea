#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY rs|py: makes seeded/ID from the uncommitted change in /repo (then undoes it). Reads JSON
{"needs","what_it_breaks"} from stdin; main.rs or demo.py must already be in seeded/ID."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, k = sys.argv[1:4]
d = os.path.join(H, "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
if k in ("rs", "py"):
    shutil.copy(os.path.join(H, "tools/tmpl/demo_%s.sh" % k), d + "/demo.sh")
m = json.load(sys.stdin)
m["property"] = p
json.dump(m, open(d + "/meta.json", "w"), indent=1)
