#!/bin/bash
# Builds the checker from /repo's current working tree and explores one property.
# Exit 0: held; 1: VIOLATION line; anything else: an error of the check.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
# build <crate>: never trusts time stamps: the crate under test is always rebuilt from its source.
build() {
  cd "$1" && mkdir -p target || return 2
  (
    flock 9
    rm -rf "$PWD"/target/release/.fingerprint/nmea-parser-* "$PWD/target/release/.fingerprint/$2"-*
    cargo build --release --offline --quiet > target/build.log 2>&1
  ) 9> target/.lock || { cat target/build.log >&2; echo "build failed" >&2; return 2; }
}
if [ "$1" = C01 ] || [ "$1" = C08 ]; then ( export RUSTC_WRAPPER="$PWD/sched/wrap.sh"; build sched sched ) & fi
( build harness mc ) || exit 2
if [ "$1" = C01 ] || [ "$1" = C08 ]; then wait $! || exit 2; fi
exec ./harness/target/release/mc check "$1"
