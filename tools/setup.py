#!/usr/bin/env python3
"""One-time setup: everything is built by the checks themselves, so this only makes the output folders and checks the tools."""
import os, shutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays", "build"):
    os.makedirs(os.path.join(H, d), exist_ok=True)
missing = [t for t in ("g++",) if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
