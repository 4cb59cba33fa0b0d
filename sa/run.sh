#!/bin/bash
# usage: run.sh OUT ROOTS   (development helper: analyse with the driver just built)
cd "$(dirname "$0")"
SR=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SR/lib RUST_MIN_STACK=4000000000
export ABSINT_CRATE=harness ABSINT_OUT=$1 ABSINT_ROOTS=$2
export RUSTFLAGS="--cap-lints=allow -Zalways-encode-mir -Coverflow-checks=on"
touch harness/src/lib.rs
cd harness
CARGO_TARGET_DIR=/tmp/ht RUSTC_WORKSPACE_WRAPPER=../driver/target/release/unic-absint cargo +nightly check --offline -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu
