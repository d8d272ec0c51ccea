#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NA, NOTES  # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in sorted(PROPS, key=lambda p: p["id"]):
    assert os.path.exists(os.path.join(HERE, "lib/checks/%s.py" % p["id"].lower())), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])],
     "notes": NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")


# ---------------------------------------------------------------- DESIGN.md
sys.path.insert(0, os.path.join(HERE, "lib"))
import importlib  # noqa
out = [open(os.path.join(HERE, "tools/design_head.md")).read(), "\n## Properties\n"]
one = lambda s: " ".join(s.split())
for p in sorted(PROPS, key=lambda p: p["id"]):
    mod = importlib.import_module("checks." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("%s\n" % p["statement"])
    out.append("*Ranges over* %s. *Why tests cannot:* %s.\n" % (p["forall"], p["why"]))
    out.append("**Method** (%s). %s\n" % (p["technique"], one(mod.EXPLANATION)))
    out.append("**Rule.** %s\n" % one(mod.RULE))
    out.append("**Bounds and trust.** %s\n" % p["note"])
out.append("## Not applicable\n")
for p in sorted(NA, key=lambda p: p["id"]):
    out.append("* **%s %s**: %s" % (p["id"], p["title"], p["reason"]))
out.append("\n" + open(os.path.join(HERE, "tools/design_tail.md")).read())
k = json.load(open(os.path.join(HERE, "known_findings.json")))
out.append("## Genuine defects found\n\nRepaired (one `fix:` commit each, suite still passing):\n")
for x in k["fixed"]:
    out.append("* " + x[len("fixed: "):])
out.append("\nRecorded as known findings:\n")
for x in k["findings"]:
    out.append("* %s `%s`: %s" % (x["property"], x["key"], x["what"]))
if not k["findings"]:
    out.append("* none")
out.append("\n## Planted bugs\n\nEach compiles, passes the 230 tests and fails its demonstration; `tools/seedtest.py` confirms it.\n")
out.append("| bug | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, one(m["what_it_breaks"]), one(m["needs"]), m.get("caught", m["property"])))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
