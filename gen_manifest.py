#!/usr/bin/env python3
"""Rewrite MANIFEST.json from sa/registry.py and not_applicable.json."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "sa"))
import registry
props = {}
for ln in open(os.path.join(H, "properties.jsonl")):
    if ln.strip():
        p = json.loads(ln)
        props[p["id"]] = p
na = json.load(open(os.path.join(H, "not_applicable.json")))
checks = []
for pid in sorted(registry.PROPS):
    s = registry.PROPS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 sa/check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 sa/check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": s["technique"], "level": "other",
                   "level_note": s.get("level_note", "sound-by-design static analysis of all paths of the current tree under the listed assumptions; thorough adds further feature configurations")})
nal = [{"property": k, "reason": v} for k, v in sorted(na.items()) if k not in registry.PROPS]
for pid in sorted(props):
    if pid not in registry.PROPS and pid not in na:
        nal.append({"property": pid, "reason": "no sound check built yet; not claimed"})
json.dump({"version": 1, "setup_cmd": "python3 sa/check.py --setup", "checks": checks, "not_applicable": nal,
           "notes": "All checks read /repo's current tree: a rustc driver dumps the MIR of the library, sa/ analyses it. No hooks in /repo."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
