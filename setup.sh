#!/bin/bash
# builds the MIR driver; every check also builds what it needs
cd "$(dirname "$0")" || exit 1
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS
export CARGO_NET_OFFLINE=true
exec cargo +nightly build --release --offline -q --manifest-path driver/Cargo.toml --target-dir build/driver
