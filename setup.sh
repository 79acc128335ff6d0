#!/bin/bash
# Builds the checker once (dependencies included), offline.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
( cd harness && cargo build --release --offline --quiet ) || exit 1
cd sched && RUSTC_WRAPPER="$PWD/wrap.sh" cargo build --release --offline --quiet
