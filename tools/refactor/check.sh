#!/bin/bash
# check.sh [group...]: applies the rewrites in a scratch copy (env R, default /tmp/rf), runs the tests and all checks there
R=${R:-/tmp/rf}
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$R"
rm -rf "$R/repo"
cp -a /repo "$R/repo"
python3 "$here/make.py" "$R/repo" "$@" || exit 2
(cd "$R/repo" && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>/dev/null | grep -E "^test result")
mkdir -p "$R/verif"
rsync -a --delete --exclude .git --exclude seeded --exclude harness/target --exclude fuzz/target /verif/ "$R/verif/"
sed -i "s#\"/repo#\"$R/repo#" "$R/verif/harness/Cargo.toml" "$R/verif/cli/Cargo.toml"
for c in $(seq -f C%02g 1 25); do
    VERIF_REPO="$R/repo" VERIF_SEED=1 "$R/verif/run.sh" $c >"$R/$c.log" 2>&1
    echo "$c $? $(tail -1 "$R/$c.log" | cut -c1-200)"
done
