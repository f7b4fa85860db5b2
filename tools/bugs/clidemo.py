import os, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HEAD = r'''#!/bin/bash
# cwd: the repository. Builds programs from the library's command line macros and uses them in a scratch directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/program" "$tmp/program"
for f in $(cd "$tmp/program" && find . -name '*.in'); do
    sed "s#@REPO@#$repo#g" "$tmp/program/$f" >"$tmp/program/${f%.in}"
done
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
if ! (cd "$tmp/program" && cargo build --release --offline >"$tmp/log" 2>&1); then
    tail -30 "$tmp/log"
    echo "demo does not build"
    exit 4
fi
cli="$CARGO_TARGET_DIR/release/fawkes-cli"
mkdir "$tmp/w"
cd "$tmp/w" || exit 3
broken() { echo "BROKEN: $1"; exit 1; }
'''
def write(s, d):
    p = d + '/program'
    for sub in ('', 'clap', 'clap_derive'):
        os.makedirs(os.path.join(p, sub, 'src'))
        src = os.path.join(V, 'cli', sub)
        for f in os.listdir(src + '/src'): shutil.copy(os.path.join(src, 'src', f), os.path.join(p, sub, 'src', f))
        t = open(src + '/Cargo.toml').read().replace('"/repo', '"@REPO@')
        open(os.path.join(p, sub, 'Cargo.toml.in'), 'w').write(t)
    shutil.copy(V + '/cli/Cargo.lock', p + '/Cargo.lock.in')
    open(d + '/demo.sh', 'w').write(HEAD + s['main'] + '\necho "demo: the property holds"\n')
    os.chmod(d + '/demo.sh', 0o755)
