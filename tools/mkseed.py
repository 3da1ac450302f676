#!/usr/bin/env python3
"""tools/mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS [NTH]: write seeded/ID/patch.diff replacing OLD by NEW in FILE (of /repo HEAD)"""
import sys, os, subprocess, json, shutil
ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS = sys.argv[1:8]
nth = int(sys.argv[8]) if len(sys.argv) > 8 else 0
S = f"/verif/seeded/{ID}"
W = f"/tmp/mkseed.{ID}"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W); os.makedirs(S, exist_ok=True)
t = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{FILE}"], capture_output=True, check=True).stdout.decode("utf-8", "surrogateescape")
parts = t.split(OLD)
if len(parts) < 2 or (nth == 0 and len(parts) != 2):
    sys.exit(f"OLD occurs {len(parts)-1} times")
nth = nth or 1
n = OLD.join(parts[:nth]) + NEW + OLD.join(parts[nth:])
for d, x in (("a", t), ("b", n)):
    p = f"{W}/{d}/{FILE}"; os.makedirs(os.path.dirname(p)); open(p, "w", encoding="utf-8", errors="surrogateescape").write(x)
r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=W, capture_output=True)
open(f"{S}/patch.diff", "wb").write(r.stdout)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(f"{S}/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/seedlib/lib.sh", f"{S}/lib.sh")
if not os.path.exists(f"{S}/demo.sh"):
    open(f"{S}/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\nrun_c demo.c\n'); os.chmod(f"{S}/demo.sh", 0o755)
shutil.rmtree(W)
