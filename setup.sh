#!/bin/bash
# builds every check from the committed files
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_DIR" || exit 2
fresh "$CARGO_TARGET_DIR"
for c in mcspake2 mcsrp mcaucpace mciso mctime mctype mcx02; do
  [ -f "mc/$c/Cargo.toml" ] || continue
  cargo build --offline --locked --manifest-path "mc/$c/Cargo.toml" || exit 2
done
if [ -f mc/mcx02/Cargo.toml ]; then
  for i in 0 1 2 3; do fresh "$CARGO_TARGET_DIR/x02-slot$i"; done
  "$CARGO_TARGET_DIR/debug/mcx02" --warm || exit 2
fi
if [ -f mc/mctype/Cargo.toml ]; then
  fresh "$CARGO_TARGET_DIR/x05"
  "$CARGO_TARGET_DIR/debug/mctype" --warm || exit 2
fi
mkdir -p evidence replays
