#!/bin/bash
# runs the verifier on the proofs crate
cd "$(dirname "$0")/../proofs"
touch src/lib.rs
RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=off" RUSTC_WORKSPACE_WRAPPER=/verif/mirv/target/release/mirv exec cargo +nightly check --lib --offline "$@"
