#!/bin/bash
# ptry.sh SLOT BUG|none|/path/to.diff [PROPERTY...]: like try.sh, but in a mount namespace with copies of /repo and /verif
# (of the working tree) bound over the real ones, so that several can run at once.
slot="$1"; b="$2"; shift 2
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
T=/tmp/tw/$slot; mkdir -p "$T/verif"
[ -d "$T/repo" ] || cp -a /repo "$T/repo"
git -C "$T/repo" fetch -q origin 2>/dev/null
git -C "$T/repo" checkout -q -f . ; git -C "$T/repo" clean -fdq
[ -d "$T/verif/target" ] || cp -a /verif/target "$T/verif/target"
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays /verif/ "$T/verif/" 2>/dev/null || {
  find "$T/verif" -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +
  (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./replays .) | tar xf - -C "$T/verif"; }
patch="/verif/seeded/$b/patch.diff"; [ -f "$b" ] && patch="$b"; [ "$b" = none ] && patch=""
[ -z "$patch" ] || git -C "$T/repo" apply "$patch" || exit 3
for p in $props; do
  s=$(date +%s)
  out=$(unshare -m bash -c "mount --bind $T/repo /repo && mount --bind $T/verif /verif && cd /verif && VERIF_TIER=quick timeout 900 ./run.sh $p quick" 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'VIOLATION|observed' | cut -c1-200 | tr '\n' ' ')"
done
git -C "$T/repo" checkout -q -f .
