#!/usr/bin/env python3
"""fills the tables of DESIGN.md (run from /verif)"""
import json, os, sys, glob
sys.path.insert(0, "sa")
import check
s = open("tools/DESIGN.in.md").read()
rows = []
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s (needs: %s) | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], d.get("caught", d["property"])))
na = json.load(open("not_applicable.json"))
import registry
nal = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    if d["id"] not in registry.PROPS:
        nal.append("* **%s %s** – %s" % (d["id"], d["title"], na.get(d["id"], "no sound check built yet; not claimed")))
cfg = ["* `%s`: `%s`" % (k, " ".join(v) or "(default features)") for k, v in check.CONFIGS.items()]
s = s.replace("@SEEDS@", "\n".join(rows)).replace("@NA@", "\n".join(nal)).replace("@CFG@", "\n".join(cfg))
open("DESIGN.md", "w").write(s)
