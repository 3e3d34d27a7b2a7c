#!/bin/bash
# Builds the simulator together with /repo's working tree as it is now.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/sim/target"
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# modification times may lie (copies, checkouts): always recompile the crate under test
find sim/target/release -maxdepth 2 \( -path '*/.fingerprint/satellite-*' -o -path '*/.fingerprint/sim-*' \) -prune -exec rm -rf {} + 2>/dev/null
if ! cargo build --release --offline --locked --manifest-path sim/Cargo.toml >sim/build.log 2>&1; then
  cat sim/build.log >&2
  echo "build of the simulator with /repo's working tree failed" >&2
  exit 2
fi
