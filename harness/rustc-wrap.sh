#!/bin/bash
# RUSTC_WRAPPER: instruments the library crate (and only it) with SanitizerCoverage edges and compares;
# redirects the memory functions of the harness to counting ones.
rc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = maybe_dns ]; then
    exec "$rc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares
  fi
  if [ "$prev" = "--crate-name" ] && [ "$a" = harness ]; then
    exec "$rc" "$@" --cfg count_moves -C link-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp
  fi
  prev="$a"
done
exec "$rc" "$@"
