#!/bin/bash
# check.sh ID quick|thorough : rebuild against /repo's working tree, then search.
id=$1; tier=${2:-quick}
cd "$(dirname "$0")" || exit 2
export VERIF_TIER=$tier
bin=./target/release/simimg
case $id in C14|C15|C16) export SIMIMG_BLOCKS=1; bin=./target/blocks/release/simimg ;; esac
out=$(bash build.sh 2>&1) || { echo "$out" | tail -40; echo "build failed" >&2; exit 2; }
exec $bin check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"
