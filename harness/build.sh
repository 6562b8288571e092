#!/bin/bash
# build.sh WIDTH BIN...: builds harness binaries against /repo's working tree.
set -e
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER="$(cd "$(dirname "$0")" && pwd)/rustc.sh" CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg pbrtrs_verif -Awarnings"
cd "$(dirname "$0")"
W=$1; shift
export CARGO_TARGET_DIR=$PWD/../target/$W
# Cargo decides by file times; forget its verdict on the code under test.
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/pbrtrs-*
# f32 as in a debug build, f64 without debug assertions, as in a release build.
[ "$W" = f64 ] && export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false
F=(); [ "$W" = f64 ] && F=(--features f64)
B=(); for b in "$@"; do B+=(--bin "$b"); done
cargo build --offline --locked -q "${F[@]}" "${B[@]}"
