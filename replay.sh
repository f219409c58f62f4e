#!/bin/bash
# replay.sh FILE : rebuild against /repo's working tree and replay one recorded violation.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
bin=./target/release/simimg
grep -qE '"property": *"C1[456]"' "$f" && { export SIMIMG_BLOCKS=1; bin=./target/blocks/release/simimg; }
out=$(bash build.sh 2>&1) || { echo "$out" | tail -40; echo "build failed" >&2; exit 2; }
exec $bin replay "$f"
