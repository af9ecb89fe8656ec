#!/bin/bash
# Builds the simulator together with /repo's working tree.
# usage: build.sh            (plain)   or   build.sh oidn   (with the denoiser stand-in)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$HERE/sim/wrap.sh
unset CARGO_INCREMENTAL CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS LD_PRELOAD
FEAT=()
export CARGO_TARGET_DIR=$HERE/sim/target
if [ "${1:-}" = oidn ]; then
  FEAT=(--features oidn)
  export CARGO_TARGET_DIR=$HERE/sim/target-oidn
fi
mkdir -p "$CARGO_TARGET_DIR"
cd "$HERE/sim" || exit 2
# Never trust timestamps alone: a changed tree is always recompiled.
STAMP=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -f "$CARGO_TARGET_DIR/stamp" ] && [ "$(cat "$CARGO_TARGET_DIR/stamp")" != "$STAMP" ]; then
  cargo clean -q --release --offline -p solstrale >/dev/null 2>&1
fi
LOG=$CARGO_TARGET_DIR/build.log
if ! cargo build --release --offline --locked "${FEAT[@]}" >"$LOG" 2>&1; then
  grep -A12 '^error' "$LOG" | head -60 >&2
  rm -f "$CARGO_TARGET_DIR/stamp"
  echo "build failed" >&2
  exit 2
fi
echo "$STAMP" >"$CARGO_TARGET_DIR/stamp"
