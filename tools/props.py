#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
LEVELS = {}


def prop(id, title, statement, over, text, why, files, mech, observe, note,
         state=(), level="model_checking", technique=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}})
    LEVELS[id] = (level, technique or
                  "TLA+ specification checked with TLC; trace validation of the real code", note)


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": p["id"],
                   "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": LEVELS[p["id"]][1],
                   "level": LEVELS[p["id"]][0],
                   "level_note": LEVELS[p["id"]][2]} for p in P
                  if p["id"] not in NOT_APPLICABLE],
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
       "notes": "Specifications in spec/*.tla (TLA+/TLC); drivers in harness/ execute /repo's working tree directly (PYTHONPATH), so no build step is needed. No hooks are needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
