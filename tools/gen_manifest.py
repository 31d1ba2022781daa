#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry for every check that exists under
harness/checks, and a not_applicable entry for every other property."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
have = {d.upper() for d in os.listdir(root + "/harness/checks")}
race = set(open(root + "/harness/race.txt").read().split())
SEARCH = "Generated-input search, shrunk to a replay file; never establishes absence. "
# id -> (technique, level, note)
T = {}
exec(open(root + "/tools/techniques.py").read())
out = dict(version=1, setup_cmd="./check setup",
           hooks=dict(guard="verif (unused: no hooks were needed)",
                      enable="nothing to enable; the harness is a separate module that imports /repo through a replace directive",
                      source_commits=[]),
           checks=[], not_applicable=[])
for i in props:
    if i in have and i in T:
        tech, level, note = T[i]
        out["checks"].append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
            evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=SEARCH + note))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
json.dump(out, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
