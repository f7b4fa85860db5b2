#!/bin/bash
# run.sh <property> [args]   builds the harness against /repo's working tree and runs one check
# run.sh build               builds only (setup_cmd)
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$ROOT/harness/target"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export VERIF_ROOT="$ROOT"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence"

build() {
    (
        flock 9
        # cargo trusts modification times; the working tree may be a fresh copy, so go by content
        h=$(cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -path ./fawkes-crypto_derive/target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
        h="$h $(cd "$ROOT" && find harness cli fuzz -name target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
        if [ "$(cat "$CARGO_TARGET_DIR/tree.stamp" 2>/dev/null)" != "$h" ]; then
            rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/fawkes*
        fi
        cd "$ROOT/harness" && cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1
        rc=$?
        if [ $rc -ne 0 ]; then
            grep -E "^error" -A8 "$CARGO_TARGET_DIR/build.log" | head -60
            echo "build failed"
            exit 2
        fi
        echo "$h" >"$CARGO_TARGET_DIR/tree.stamp"
    ) 9>"$CARGO_TARGET_DIR/verif.lock"
}

# the programs of C23: the library's command line macros, instantiated
build_cli() {
    (
        flock 9
        cd "$ROOT/cli" && cargo build --release --offline >"$CARGO_TARGET_DIR/cli.log" 2>&1
    ) 9>"$CARGO_TARGET_DIR/verif.lock"
}

build || exit 2
if [ "${1:-}" = build ]; then
    build_cli
    exit 0
fi
if [ "${1:-}" = C23 ] || { [ "${1:-}" = --replay ] && grep -q '"property": *"C23"' "$2"; }; then
    if ! build_cli; then
        cat "$CARGO_TARGET_DIR/cli.log" | grep -E "^error" -A10 | head -60
        if grep -q "clap stand-in\|unsupported clap attribute\|in the crate .clap.\|crate::clap\|clap::" "$CARGO_TARGET_DIR/cli.log"; then
            echo "the bindings use more of clap than the stand-in offers"
            exit 2
        fi
        mkdir -p "$ROOT/replays"
        cp "$CARGO_TARGET_DIR/cli.log" "$ROOT/replays/C23-build.log"
        echo "FAILURE C23: a program built from the bindings does not compile"
        echo "VIOLATION property=C23 replay=$ROOT/replays/C23-build.log"
        exit 1
    fi
    export VERIF_CLI="$CARGO_TARGET_DIR/release/fawkes-cli"
fi
BIN="$CARGO_TARGET_DIR/release/fawkes-verif"
if [ "${VERIF_TIER:-quick}" = thorough ] && [ $# -eq 1 ] && [ "$1" != C23 ]; then
    # coverage-guided search first; what it keeps is run again below
    VERIF_TAPES=$(mktemp -d) && export VERIF_TAPES
    trap 'rm -rf "$VERIF_TAPES"' EXIT
    "$ROOT/fuzz/fuzz.sh" "$1" "$BIN" "$VERIF_TAPES"
fi
"$BIN" "$@"
rc=$?
case $rc in
    0 | 1 | 2) exit $rc ;;
    132 | 134 | 135 | 136 | 139)
        # the process died (stack overflow, abort): find the case that kills it
        log="$ROOT/replays/crash-$1.json"
        mkdir -p "$ROOT/replays"
        rm -f "$log"
        VERIF_TAPELOG="$log" timeout 400 "$BIN" "$@" >/dev/null 2>&1
        rc2=$?
        case $rc2 in
            132 | 134 | 135 | 136 | 139)
                echo "FAILURE $1: the process dies (status $rc2) on the case in $log"
                echo "VIOLATION property=$1 replay=$log"
                exit 1
                ;;
        esac
        echo "check process died with status $rc and then with $rc2"
        exit 2
        ;;
    *) exit 2 ;;
esac
