#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (this file)."""
import json, os
from proptable import P, NA

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

ALL = P + [n["prop"] for n in NA]
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in sorted(ALL, key=lambda p: p["id"]):
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for p in P:
    i = p["id"]
    assert i in PROPS, i
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i} quick",
        "thorough_cmd": f"python3 tools/check.py {i} thorough",
        "technique": "deterministic simulation: seeded schedule, clock and fault search with " + p["oracle"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": checks,
    "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA],
    "notes": "No hooks in /repo: the simulator compiles the unmodified sources with -fsanitize=thread instrumentation and supplies the run-time itself (sim/rt.cpp). See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
