#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks_table.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from checks_table import CHECKS, NOTES, TECH
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="Property-based testing and fuzzing only; see DESIGN.md. No hooks in /repo are needed.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH.get(i, "model-based random testing with shrinking; coverage-guided fuzzing in the thorough tier"), level="exploration",
            level_note=NOTES.get(i, "Holds on every generated case of the run; bounded by the generators described in DESIGN.md. Trusts the compiler and the reference model in harness/.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOTES.get("na:" + i, "check not built yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
