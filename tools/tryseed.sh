#!/bin/bash
# tryseed.sh ID... -- run the check of each planted change against a scratch copy of /repo
for id in "$@"; do
  W=$(mktemp -d /tmp/tryseedXXXXXX)
  cp -a /repo "$W/repo"; git -C "$W/repo" apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; rm -rf "$W"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp -a /verif "$W/verif"
  (cd "$W/verif" && PYVC_REPO="$W/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py "$P" > "$W/out" 2>&1; echo "$id $P rc=$? $(grep -m1 VIOLATION "$W/out") | $(grep -v VIOLATION "$W/out" | head -2 | cut -c1-200 | tr '\n' ' ')")
  rm -rf "$W"
done
