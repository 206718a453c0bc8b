#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from props import PROPS, NA, TECH
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py run %s quick" % i, "thorough_cmd": "python3 tools/check.py run %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH + (": " + p["tech"] if p.get("tech") else ""), "level": p["level"],
                   "level_note": p["note"]})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks were added to /repo: the seams are the message-layer, thread-runtime, allocator, file and clock interfaces the sources already use", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "replay: python3 tools/check.py replay FILE; determinism proof: python3 tools/check.py determinism ID N"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
