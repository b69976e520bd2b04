#!/usr/bin/env python3
"""replay.py PROPERTY FILE [-v]: re-executes a replay file against /repo's current tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
from symbolize import symbolize
cfg = PROPS[sys.argv[1]]
fl = tuple(cfg.get("flags", ()))
for line in open(sys.argv[2]):
    if line.startswith("# binary ") and "variant '" in line:
        v = line.split("variant '")[1].split("'")[0]
        if v:
            fl += tuple(cfg["variants"][v])
exe = B.build(cfg["h"], fl)
p = subprocess.run([exe, "replay", sys.argv[2]] + sys.argv[3:], capture_output=True, text=True)
print(symbolize(exe, p.stdout), end="")
sys.exit(p.returncode)
