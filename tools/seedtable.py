#!/usr/bin/env python3
"""tools/seedtable.py TAIL: DESIGN.md = its part before '## Not applicable' + TAIL with the table of seeded changes"""
import glob, json, os, sys
T = "/verif/tools/design_tail.md"
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"].replace("|", "/"), m["property"]))
d = open("/verif/DESIGN.md").read().split("\n## Not applicable")[0].rstrip("\n") + "\n"
open("/verif/DESIGN.md", "w").write(d + open(T).read().replace("@@TABLE@@", "\n".join(rows)))
