#!/bin/bash
# try.sh BUG [PROPERTY...]: applies a planted bug to /repo, runs checks, undoes it
cd /verif; b="$1"; shift
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
git -C /repo apply "/verif/seeded/$b/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s); out=$(VERIF_TIER=quick timeout 900 ./run.sh "$p" quick 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'VIOLATION|observed' | cut -c1-200 | tr '\n' ' ')"
done
