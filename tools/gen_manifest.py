#!/usr/bin/env python3
"""MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import config
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s quick" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + c.get("oracle", "executable reference model"),
            "level": "exploration",
            "level_note": c["rule"] + " Seeded sampling, not enumeration: %d simulated runs in the quick tier; every violation is replayed exactly and minimised before it is reported. Trusted: the simulator (sim/), the reference model in the harness, compiler instrumentation." % c["quick"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are compiler instrumentation (-fsanitize=thread code generation without its runtime), link-time interposition of pthread, stdio and operator new/delete, and the element, callback and comparator parameters of the templates."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
