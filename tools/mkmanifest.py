#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive within the small constants of the TLC configurations named in DESIGN.md; the code is bound to the "
        "specification by executing every exported behaviour plus a seeded generated script and validating each recorded "
        "call with TLC. Trusts TLC, the Java interpretations in java/, the driver in harness/ and the rustc test profile.")
out = {"version": 1, "setup_cmd": "python3 tools/run.py setup", "checks": [], "not_applicable": [],
       "notes": "TLA+ specification in spec/, checked with TLC; conformance by replaying model behaviours and validating traces of the real code. No hooks in /repo: only public items are used."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        out["checks"].append({"property": p["id"], "quick_cmd": f"python3 tools/run.py check {p['id']} quick",
            "thorough_cmd": f"python3 tools/run.py check {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": checks.TECHNIQUE.get(p["id"], "TLA+ model checked with TLC; model behaviours replayed into the code and recorded traces validated against the specification"),
            "level": "model_checking", "level_note": checks.LEVEL_NOTE.get(p["id"], "") + NOTE})
    else:
        out["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
