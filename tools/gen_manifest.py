#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that run.py can decide."""
import json, os, re, runpy, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["run.py", "--build"]
src = open(os.path.join(here, "run.py")).read().split("\nsys.exit(main())")[0]
ns = {"__file__": os.path.join(here, "run.py")}
exec(src, ns)
TECH = json.load(open(os.path.join(here, "tools", "technique.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p in ns["RUNS"]:
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": TECH.get(p + "-na", "no check built yet")} for p in props if p not in ns["RUNS"]],
     "notes": "No hooks in /repo: checks compile its sources as they are, against stand-ins for dependencies that are not in the cargo cache (harness/stubs, validated by tools/validate_stubs.sh)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
