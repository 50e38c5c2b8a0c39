#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = props.NOTES
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks = []
    for i in ids:
        if i in props.CHECKS:
            tech, note = NOTES.get(i, (None, None))
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                           "technique": tech or "TLA+ specification checked with TLC: recorded executions of the real code validated as traces of the specification",
                           "level": "model_checking", "level_note": note or props.DEFAULT_NOTE})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py setup", "checks": checks,
         "not_applicable": [{"property": i, "reason": props.NA.get(i, "check not built yet")} for i in ids if i not in props.CHECKS]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1); h.write("\n")
main()
