#!/usr/bin/env python3
"""Prints the "fixed" entries of known_findings.json from the fix: commits of /repo (run by hand when a repair is added)."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(VERIF, "known_findings.json")
FIX = json.load(open(os.path.join(VERIF, "tools", "fixes.json")))	# commit subject -> property
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
old = json.load(open(path)) if os.path.exists(path) else []
out = [e for e in old if e.get("kind") == "finding"]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if s not in FIX:
        print("no property for:", s)
        continue
    what = s[5:]
    out.append({"kind": "fixed", "property": FIX[s], "commit": h, "what": what, "entry": f"fixed: property={FIX[s]} {h} {what}"})
json.dump(out, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
