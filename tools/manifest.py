#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and suites.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from suites import PROPS, SUITES
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
HOOKS = json.load(open(os.path.join(ROOT, "tools", "hooks.json"))) if os.path.exists(os.path.join(ROOT, "tools", "hooks.json")) else None
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append({"property": i, "reason": "no check registered yet"})
        continue
    s = PROPS[i]["suites"]
    mcs = [x for x in s if SUITES[x]["kind"] == "mc"]
    trs = [x for x in s if SUITES[x]["kind"] == "trace"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py check --property {i} --tier quick",
        "thorough_cmd": f"python3 run.py check --property {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "TLA+ specification checked by TLC; every transition TLC enumerates is replayed "
                     "on the real types, and recorded executions are validated against the specification by TLC",
        "level": PROPS[i]["level"],
        "level_note": "Exhaustive over the bounded state graphs of " + ", ".join(sorted({SUITES[x]["module"] for x in mcs}))
                      + (" and recorded seeded histories validated by " + ", ".join(sorted({SUITES[x]["module"] for x in trs})) if trs else "")
                      + "; beyond these bounds it samples. Trusts TLC, the replayer's handle binding and rustc. "
                      + PROPS[i].get("note", ""),
    })
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. All commands run offline in /verif and rebuild the harness from /repo's working tree."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
