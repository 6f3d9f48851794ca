#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test (and the crate that instantiates its generics)
# with edge coverage; every edge is a yield point of the simulated scheduler.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  basic_dsp_vector|basic_dsp_matrix|basic_dsp_interop|basic_dsp|subject|crossbeam_utils)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
