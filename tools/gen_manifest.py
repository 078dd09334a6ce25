#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an analysis in analysis/props is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": ("path-sensitive typestate analysis over compiler IR",
             "abstract interpretation of the compiled source from public entry points; all paths up to the loop bound, never executed"),
}
NA = {}
tp = os.path.join(V, "tools", "manifest_notes.json")
notes = json.load(open(tp)) if os.path.exists(tp) else {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    n = notes.get(i, {})
    if "not_applicable" in n:
        na.append({"property": i, "reason": n["not_applicable"]}); continue
    if not os.path.exists(os.path.join(V, "analysis", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "no static analysis built for it yet"}); continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": n.get("technique", TECH["default"][0]),
                   "level": "other", "level_note": n.get("level_note", TECH["default"][1])})
m = {"version": 1, "setup_cmd": "python3 analysis/frontend.py", "checks": checks, "not_applicable": na,
     "notes": "All checks compile the current /repo tree to LLVM bitcode and analyse it; nothing of /repo is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
