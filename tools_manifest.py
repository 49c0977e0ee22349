"""Regenerates MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "level_notes.json")))
import sys
sys.path.insert(0, HERE)
from contracts.run import load
REG, _ = load()


def note(i):
    mine = [c for c in REG if i in c.props]
    full = ", ".join(c.name for c in mine if not c.bounded)
    part = "; ".join(f"{c.name} ({c.bounded})" for c in mine if c.bounded)
    return (f"Proved for all inputs: {full}. " if full else "") + (f"With a bound (not counted as proved in general): {part}. " if part else "") + \
        "The functions out of the reach of the verifier are covered by the bounded run-time evaluation (DESIGN.md, section 3)."


checks = []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    checks.append(dict(
        property=i,
        quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique=n.get("technique", "contracts on the real functions, obligations generated from the current sources and discharged with z3; bounded run-time evaluation of the property for the rest"),
        level=n.get("level", "proof"),
        level_note=n.get("note") or note(i)))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m py_compile check.py && mkdir -p evidence/replay", checks=checks, not_applicable=[],
               notes="No hooks: /repo is loaded as it is (the verifier instruments the sources in memory)."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
