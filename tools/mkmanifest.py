#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from properties.jsonl and the list of checks that exist.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "harness/src/props/mod.rs")).read()
LEVEL_NOTE = "generated-input search with shrinking against an explicit oracle; bounded by the case counts and size bounds in the evidence file"
TECH = {}
exec(open(os.path.join(here, "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if f'"{i}" =>' in src:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + TECH[i],
                       "level": "exploration", "level_note": LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check.sh --build", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API and the command line program only", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
