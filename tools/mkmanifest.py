#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NA, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over simulated executions (%s)" % CHECKS[i]["worlds"],
                       "level": "exploration", "level_note": NOTES.get(i, "Seeded sampling of schedules, histories and faults over the real code in a simulator; a clean batch is evidence, not proof.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator takes over pthreads, clocks, heap and randomness at link time and instruments memory accesses at compile time, so there is no guard and no hook commit. Fix commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
