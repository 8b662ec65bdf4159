#!/bin/bash
cd "$(dirname "$0")"
RUSTFLAGS="-Clink-args=-Wl,-rpath,$(rustc +nightly --print sysroot)/lib" cargo +nightly build --release --offline "$@"
