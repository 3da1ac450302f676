#!/bin/bash
# tools/seed.sh ID PROP : try seeded change ID: patch applies, builds, demo fails with / passes without, which checks see it
# usage: tools/seed.sh ID [check...]   (copies /repo to /tmp/sw.ID; add "full" to run the test suite with vcheck later)
set -u
ID=$1; shift
S=/verif/seeded/$ID
T=/tmp/sw.$ID
rm -rf "$T"; mkdir -p "$T"
git -C /repo archive HEAD | tar -x -C "$T"
echo "== unchanged"; (cd "$T" && timeout 300 bash "$S/demo.sh"); echo "demo rc=$?"
(cd "$T" && git apply --unsafe-paths "$S/patch.diff" 2>/dev/null || patch -p1 -s < "$S/patch.diff") || { echo "patch does not apply"; exit 1; }
echo "== patched"; (cd "$T" && timeout 300 bash "$S/demo.sh"); echo "demo rc=$?"
for c in "$@"; do
  VERIF_REPO=$T timeout 900 python3 /verif/checks/$c.py quick > /tmp/sw.$ID.log 2>&1; echo "check $c rc=$?"; grep -E "VIOLATION" /tmp/sw.$ID.log | head -3
done
rm -rf "$T"
