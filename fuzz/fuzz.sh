#!/bin/bash
# fuzz.sh <property> <harness binary> <directory>   coverage-guided search (libFuzzer) over the choice tapes of
# each sub-check; inputs with new coverage and failing inputs are left in <directory>/<sub-check>/, the number of
# executions in <directory>/<sub-check>.runs. Never decides anything itself: the harness re-runs what is left there.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
id=$1 bin=$2 dir=$3
workers=8
stamp=$(cat "$CARGO_TARGET_DIR/tree.stamp" 2>/dev/null)
export CARGO_TARGET_DIR="$HERE/target"
mkdir -p "$CARGO_TARGET_DIR"
(
    flock 9
    if [ "$(cat "$CARGO_TARGET_DIR/tree.stamp" 2>/dev/null)" != "$stamp" ]; then
        rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/fawkes*
    fi
    cd "$HERE" && RUSTC_WRAPPER="$HERE/wrap.sh" cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1 && echo "$stamp" >"$CARGO_TARGET_DIR/tree.stamp"
) 9>"$CARGO_TARGET_DIR/verif.lock" || { echo "no coverage-guided search: fuzz build failed"; exit 0; }
ulimit -s 1048576 2>/dev/null
subs=$("$bin" --list | awk -v i="$id" '$1 == i { for (k = 2; k <= NF; k++) print $k }')
set -- $subs
secs=$((${VERIF_FUZZ_S:-150} / ($# > 0 ? $# : 1)))
for sub in $subs; do
    mkdir -p "$dir/$sub" "$dir/log"
    for w in $(seq $workers); do
        (cd "$dir" && VERIF_SUB="$id/$sub" timeout $((secs + 600)) "$CARGO_TARGET_DIR/release/fawkes-fuzz" "$dir/$sub" -artifact_prefix="$dir/$sub/" \
            -seed=$((${VERIF_SEED:-1} * 100 + w)) -max_total_time="$secs" -max_len=3600 -len_control=20 -use_value_profile=$((w % 2)) -timeout=300 -rss_limit_mb=3500 \
            -reload=1 -print_final_stats=1 >"$dir/log/$sub.$w" 2>&1) &
    done
    wait
    rm -f "$dir/$sub"/oom-* "$dir/$sub"/slow-unit-*
    awk '/stat::number_of_executed_units/ { n += $2 } END { print n + 0 }' "$dir/log/$sub".* >"$dir/$sub.runs"
    echo "coverage-guided $id/$sub: $(cat "$dir/$sub.runs") executions, $(ls "$dir/$sub" | wc -l) inputs kept"
done
exit 0
