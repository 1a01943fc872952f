#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and the property list."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "vf"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {"C25": "max_flow.hpp and boykov_kolmogorov.hpp do not compile when instantiated with any graph type of this tree (their tests are commented out), so there is no behaviour to bind a specification to"}
SCHED = " The parallel parts also run under a controlled scheduler that interleaves the workers at their shared-memory accesses (sequentially consistent, seeded); each result is validated like the others."
m = {"version": 1,
     "setup_cmd": "sh bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "All checks: TLA+ specifications in spec/ checked with TLC; conformance drivers in harness/ compiled against /repo/include; traces validated by TLC. bin/check <id> [quick|thorough]."}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
            "technique": c.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code and recorded traces validated by TLC"),
            "level": c.get("level", "model_checking"),
            "level_note": c["note"] + (SCHED if any(u["name"].endswith("schedules") for u in c.get("units", [])) else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
