#!/bin/bash
# cwd: the repository. Builds the small program beside this script against it and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" >"$tmp/Cargo.toml"
cp "$here/Cargo.lock.in" "$tmp/Cargo.lock"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
cd "$tmp" || exit 3
if ! cargo build --release --offline >"$tmp/log" 2>&1; then
    tail -30 "$tmp/log"
    echo "demo does not build"
    exit 4
fi
timeout 240 "$CARGO_TARGET_DIR/release/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: the property holds" || echo "demo: status $rc"
exit $rc
