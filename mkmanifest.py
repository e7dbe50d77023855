#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks, and the reasons below for what is not claimed."""
import json, os, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import run
NOTES = json.load(open("levels.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.registry:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=n["technique"],
                           level=run.registry[i][0], level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet (work in progress)")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
hooks = NOTES.get("_hooks")
if hooks:
    m["hooks"] = hooks
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
