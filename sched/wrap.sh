#!/bin/bash
# rustc wrapper: the crate under test reports every edge, load and store to the scheduler in this crate.
rustc="$1"; shift
for a in "$@"; do
  if [ "$a" = nmea_parser ]; then
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
  fi
done
exec "$rustc" "$@"
