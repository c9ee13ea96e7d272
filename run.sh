#!/bin/bash
# run.sh ID quick|thorough [--only CASE]
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: error of the check itself
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift 2 2>/dev/null
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
cd "$VERIF_DIR" || exit 2
case "$id" in
  S0*) crate=mcspake2 ;; R0*) crate=mcsrp ;; A*) crate=mcaucpace ;; X01|X03) crate=mciso ;; X02) crate=mcx02 ;; X04) crate=mctime ;; X05) crate=mctype ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
exec 9>"$VERIF_DIR/.build.lock"; flock 9
fresh "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build-$crate.log"
if ! cargo build --offline --locked --manifest-path "mc/$crate/Cargo.toml" >"$log" 2>&1; then
  tail -n 40 "$log" >&2; echo "build of $crate failed" >&2; exit 2
fi
if [ "$crate" = mctype ]; then fresh "$CARGO_TARGET_DIR/x05"; fi
if [ "$crate" = mcx02 ]; then for i in 0 1 2 3; do fresh "$CARGO_TARGET_DIR/x02-slot$i"; done; fi
flock -u 9
mkdir -p evidence replays
"$CARGO_TARGET_DIR/debug/$crate" "$id" "--$tier" "$@"
rc=$?
[ $rc -le 1 ] || exit 2
exit $rc
