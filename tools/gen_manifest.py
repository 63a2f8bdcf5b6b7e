#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
verif = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(verif, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: every monitor observes through the public API, the global allocator, the addresses of elements, and the sanitizers. check.py --replay FILE re-runs the witness of a VIOLATION line."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": c.get("technique", "runtime monitoring against a reference model"), "level": c.get("level", "exploration"),
                            "level_note": c.get("level_note", "Held on the executions counted in the evidence; the reference model, the workload generator and the Rust toolchain are trusted.")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_CLAIMED.get(p["id"], "check not built yet")})
json.dump(m, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)
