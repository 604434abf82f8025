"""Writes MANIFEST.json from properties.jsonl and harness/checks.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import checks  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": [], "notes":
       "Every check: TLC explores a TLA+ module of spec/ and emits a plan of events; harness/observe.py replays it on "
       "/repo through the public API; TLC judges each observation against the specification (spec/Conform.tla)."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = checks.NOTES.get(i, checks.NOTES["*"])
        man["checks"].append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": "check under construction"})
if not man["not_applicable"]:
    del man["not_applicable"]
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
