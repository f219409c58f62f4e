#!/bin/bash
# Builds the simulator against /repo's current working tree.
# SIMIMG_BLOCKS=1: the build with preemption points in every basic block (blocks.sh).
set -e
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/sim"
export RUSTFLAGS="${RUSTFLAGS:-} --cap-lints allow"; export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="${SIMIMG_TARGET:-/verif/target}"
if [ -n "${SIMIMG_BLOCKS:-}" ]; then
  export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/blocks" RUSTC_WRAPPER="$root/blocks.sh"
fi
exec cargo build --release --offline --locked "$@"
