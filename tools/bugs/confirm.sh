#!/bin/bash
# confirm.sh id...   in scratch copies under /tmp/m: tests, demo (clean and patched) and the property's check with the patch
M=${M:-/tmp/m}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
if [ ! -d $M/repo ]; then
    mkdir -p $M && cp -a /repo $M/repo
fi
git -C $M/repo checkout -q -- . && git -C $M/repo fetch -q /repo && git -C $M/repo -c advice.detachedHead=false checkout -q "$(git -C /repo rev-parse HEAD)"
mkdir -p $M/verif
(cd /verif && rsync -a --delete --exclude harness/target --exclude fuzz/target --exclude .git --exclude seeded --exclude evidence --exclude replays ./ $M/verif/ 2>/dev/null || { cp -a /verif/harness/src /verif/harness/Cargo.* $M/verif/harness/; })
sed -i "s#\"/repo#\"$M/repo#g" $M/verif/harness/Cargo.toml $M/verif/cli/Cargo.toml
export VERIF_REPO=$M/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in "$@"; do
    d=/verif/seeded/$id; [ -d $d ] || d=/verif/tools/bugs/extra/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cd $M/repo
    res="$id $p"
    if [ -z "$NODEMO" ]; then
        DEMO_TARGET=$M/dt timeout 300 bash $d/demo.sh >$M/demo0.log 2>&1; res="$res clean=$?"
    fi
    git apply $d/patch.diff || { echo "$res APPLY"; continue; }
    if [ -z "$NODEMO" ]; then
        CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$M/test.log 2>&1; res="$res tests=$?($(grep -c '^test .* ok' $M/test.log))"
        DEMO_TARGET=$M/dt timeout 300 bash $d/demo.sh >$M/demo1.log 2>&1; res="$res demo=$?[$(grep -h -m1 -E 'BROKEN|panicked|build' $M/demo1.log | head -c 70)]"
    fi
    if [ -z "$NOCHECK" ]; then
        t0=$(date +%s)
        (cd $M/verif && timeout 900 ./run.sh ${CHECK:-$p} >$M/check-$id.log 2>&1); rc=$?
        t1=$(date +%s)
        res="$res check=$rc $(grep -c "^VIOLATION property=${CHECK:-$p}" $M/check-$id.log) $((t1-t0))s [$(grep -h -m1 FAILURE $M/check-$id.log | head -c 100)]"
    fi
    echo "$res"
    git checkout -q -- .
done
