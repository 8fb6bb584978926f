#!/bin/bash
# dump.sh OUTDIR [REPO]: builds the driver if needed and dumps the MIR of the two macro crates
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=${2:-/repo}
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true
sys=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sys/lib
cargo +nightly build --release --offline -q --manifest-path "$here/driver/Cargo.toml" --target-dir "$here/build/driver"
mkdir -p "$out"
export MIRDUMP_OUT=$out MIRDUMP_CRATES=leptos_mview_core,leptos_mview_macro
export MIRDUMP_BODIES=${MIRDUMP_BODIES:-core::option::,<core::option::,<core::result::,core::result::,core::bool::,core::convert::,core::ops::,std::option::,std::result::,std::convert::,std::ops::,bool::,std::cmp::,core::cmp::,std::mem::,core::mem::}
export RUSTC_WORKSPACE_WRAPPER=$here/build/driver/release/mirdump
rm -f "$out"/*.json
tgt=$here/build/target
# a fresh fingerprint for the workspace members, so that the wrapper always runs
rm -rf "$tgt"/deps/debug/build/leptos-mview-core "$tgt"/deps/debug/build/leptos-mview-macro "$tgt"/deps/debug/.fingerprint/leptos-mview-core-* "$tgt"/deps/debug/.fingerprint/leptos-mview-macro-*
cargo +nightly check --offline -q --manifest-path "$repo/Cargo.toml" -p leptos-mview-core -p leptos-mview-macro --target-dir "$tgt/deps" --config "build.incremental=false"
ls -la "$out"
