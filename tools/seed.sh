#!/bin/bash
# tools/seed.sh ID [nocheck] : validate one planted bug against /repo (applies it, undoes it)
id=$1; d=/verif/seeded/$id; cd /repo || exit 9
git diff --quiet || { echo "repo dirty"; exit 9; }
bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; echo "$id demo clean rc=$?"
git apply $d/patch.diff || { echo "does not apply"; exit 9; }
timeout -k 2 300 bash /tmp/stable.sh | tail -1 || true; pkill -f /repo/bin/ 2>/dev/null
bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; echo "$id demo patched rc=$? $(tail -1 /tmp/seed_demo1.log | cut -c1-150)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != nocheck ]; then (cd /verif; VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p >/tmp/seed_check.log 2>&1; echo "$id check $p rc=$?"; grep -E "VIOLATION|^\[" /tmp/seed_check.log | head -4 | cut -c1-160); fi
git -C /repo checkout -- .
