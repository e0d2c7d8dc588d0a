#!/bin/bash
# Builds both variants of the simulator from /repo's working tree.  usage: build.sh [chk|rel|both]
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_PROFILE_DEV_DEBUG
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
# A change of /repo's sources always leads to a rebuild, whatever the modification times say.
sum="$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$here/rustc-wrap.sh") | sha256sum | cut -d' ' -f1)"
one() {
  mkdir -p "$here/target/$1"
  if [ "$(cat "$here/target/$1/source.sum" 2>/dev/null)" != "$sum" ]; then
    rm -rf "$here/target/$1/$1/.fingerprint/"householder-*
  fi
  if [ "$1" = chk ]; then export HSIM_PORTABLE_KERNELS=1; else export HSIM_PORTABLE_KERNELS=0; fi
  CARGO_TARGET_DIR="$here/target/$1" cargo build --offline --quiet --profile "$1" -p hsim || return 1
  echo "$sum" > "$here/target/$1/source.sum"
}
case "${1:-both}" in
  both) one chk & p=$!; one rel; r=$?; wait $p && exit $r; exit 1 ;;
  *) one "$1" ;;
esac
