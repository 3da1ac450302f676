#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "technique.py")).read())
checks = []; na = []
for p in mkprops.P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t, lvl, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                           evidence_file="evidence/%s.json" % i, technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 vlib/build.py plain", checks=checks, not_applicable=na,
         hooks=dict(guard="VERIF_HOOKS", enable="the checks compile sgrid with -DVERIF_HOOKS; no code in /repo is guarded by it, since the public API exposes all state that is observed", source_commits=[]),
         notes="See DESIGN.md. Known findings and fixed defects: KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
