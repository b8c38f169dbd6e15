#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOTES
root = os.path.dirname(here)
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code, "
props, checks, na = [], [], []
for p in PROPS:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p.get("state") else {}),
                    "observe_at": p["observe"], "hook_needed": None},
    })
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./run.sh check %s quick" % p["id"],
                       "thorough_cmd": "./run.sh check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": TECH + p["oracle"],
                       "level": "exploration", "level_note": p["note"]})
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na, "notes": NOTES}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    print("not validated (run with python3-vt to validate)")
else:
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props), "properties,", len(checks), "checks")
