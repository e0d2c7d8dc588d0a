#!/bin/bash
# Builds demo.rs against the householder sources in the current directory and runs it.
# Exit 0: the property holds.  Everything it writes is inside one scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
t=/tmp/householder-demo-@ID@
rm -rf /tmp/householder-demo-@ID@
mkdir -p "$t/src" || exit 3
trap 'rm -rf /tmp/householder-demo-@ID@' EXIT
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
householder = { path = "$repo" }
rand = "0.8"
rand_distr = "0.4"
num = "0.4"
[profile.release]
debug-assertions = false
overflow-checks = false
EOF
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target"
cargo build --offline --quiet @FLAGS@ || exit 2
timeout @SECS@ "$t/target/@DIR@/demo"
