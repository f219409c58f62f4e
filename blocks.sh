#!/bin/bash
# rustc wrapper: the crates whose interleavings matter get a preemption point in every basic block.
rustc=$1; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
image|simimg|exr|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=2 -C llvm-args=-sanitizer-coverage-trace-pc ;;
*) exec "$rustc" "$@" ;;
esac
