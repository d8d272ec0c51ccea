#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property by static analysis of /repo's current
source. Exit 0: held (known findings are printed); exit 1: VIOLATION lines; exit 2: no answer."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import facts  # noqa: E402
import mir  # noqa: E402


class Ctx:
    """What a check reports into."""

    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # (key, message, where)
        self.cov = {}
        self.assumptions = []
        self.samples = {}

    def violation(self, key, msg, where=""):
        if key not in [v[0] for v in self.violations]:
            self.violations.append((key, msg, where))

    def count(self, what, n=1):
        self.cov[what] = self.cov.get(what, 0) + n

    def sample(self, what, x, cap=400):
        l = self.samples.setdefault(what, [])
        if len(l) < cap and x not in l:
            l.append(x)

    def floor(self, what, n, note=""):
        """Fails closed when the analysis saw less than it must: an anchor has gone missing."""
        got = self.cov.get(what, 0)
        if got < n:
            self.violation("anchor:%s" % what,
                           "the analysis found %d %s where at least %d are needed to decide the property%s: "
                           "the code it is anchored in is gone" % (got, what, n, " (" + note + ")" if note else ""))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == pid:
                out[e["key"]] = e["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid)
    ctx.tier = tier
    try:
        ctx.prog = mir.load()
        try:
            mod.run(ctx)
        except mir.Missing as e:
            ctx.violation("anchor:" + str(e), "the code this property is anchored in is gone: %s" % e)
    except facts.FactsError as e:
        print("NO-ANSWER property=%s: %s" % (pid, e))
        return 2
    kn = known(pid)
    new = [v for v in ctx.violations if v[0] not in kn]
    old = [v for v in ctx.violations if v[0] in kn]
    evd = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(evd, "replay")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(evd, "replay", f))
    cov = {"explanation": mod.EXPLANATION.strip(), "rule": mod.RULE.strip(), "counts": ctx.cov,
           "analysed": ctx.samples,
           "program": {"functions": len(ctx.prog.fns), "impls": len(ctx.prog.impls), "types": len(ctx.prog.adts),
                       "tree": facts.tree_key()},
           "known_findings": [{"key": k, "what": kn[k]} for k, _, _ in old]}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": ctx.assumptions}
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for k, m, w in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k], k))
    for i, (k, m, w) in enumerate(new):
        rp = os.path.join(evd, "replay", "%s-%d.txt" % (pid, i + 1))
        open(rp, "w").write("property: %s\nkey: %s\nwhere: %s\n%s\n\nrule: %s\n\nReproduce: python3 %s %s\n" % (
            pid, k, w, m, mod.RULE.strip(), os.path.join(HERE, "check.py"), pid))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s\n  at %s\n  key %s" % (m, w, k))
    if not new:
        print("OK property=%s %s (%.1f s)" % (pid, ", ".join("%s=%s" % kv for kv in sorted(ctx.cov.items())),
                                              time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
