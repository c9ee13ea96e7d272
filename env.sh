# sourced by run.sh and setup.sh
VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export VERIF_DIR
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_PROFILE_DEV_DEBUG
REPO="${VERIF_REPO:-/repo}"
[ -n "${HOME:-}" ] || export HOME=/root
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) export PATH="$PATH:/root/.cargo/bin" ;; esac
# content hash of everything of the code under test that goes into a build
repo_hash() {
  (cd "$REPO" && find Cargo.toml Cargo.lock spake2 srp aucpace -path '*/target' -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name '*.md' -o -name '*.bin' -o -name 'Cargo.lock' -o -path '*/src/*' \) -print0 |
   LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}
# cargo decides by file times; make it decide by content
fresh() { # $1 = target dir
  mkdir -p "$1"
  local h; h=$(repo_hash)
  if [ "$(cat "$1/.repo-hash" 2>/dev/null)" != "$h" ]; then
    rm -f "$1/.repo-hash"
    local d
    for d in "$1"/*/.fingerprint "$1"/*/*/.fingerprint; do
      [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'spake2-*' -o -name 'srp-*' -o -name 'aucpace-*' -o -name 'x02probe-*' \) -exec rm -rf {} +
    done
    echo "$h" > "$1/.repo-hash"
  fi
}
