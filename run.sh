#!/bin/bash
# bash run.sh PROPERTY [MODE CASE]: build the monitors against /repo's working
# tree and run the check of one property. VERIF_SEED and VERIF_TIER apply.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
repo=${VMON_REPO:-/repo}
log=$(mktemp)
built() {
    if ! "$@" >"$log" 2>&1; then
        tail -40 "$log"
        rm -f "$log"
        echo "the harness or /repo does not build"
        exit 2
    fi
}
built cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir harness/target --bin vmon
if [ "$1" = C23 ]; then
    built cargo build --offline --locked --manifest-path "$repo/Cargo.toml" --target-dir cli-target --bin ruruby-parse
    export VMON_CLI="$PWD/cli-target/debug/ruruby-parse"
fi
export VMON_ROOT="$PWD"

# The same workload in a build with a sanitizer: sanitized NAME FLAGS ENV...
sanitized() {
    local name=$1 flags=$2 prop=$3
    shift 3
    if ! env RUSTFLAGS="-Zsanitizer=$name" cargo +nightly build --release --offline --locked $flags --target x86_64-unknown-linux-gnu \
        --manifest-path harness/Cargo.toml --target-dir "harness/target-$name" --bin vmon >"$log" 2>&1; then
        VMON_NOTE="the build with the sanitizer $name failed"
        export VMON_NOTE
        tail -5 "$log"
        return
    fi
    local scratch
    scratch=$(mktemp -d)
    cp known_findings.txt "$scratch/"
    env "$@" VMON_ROOT="$scratch" "harness/target-$name/x86_64-unknown-linux-gnu/release/vmon" work "$prop" >"$log" 2>&1
    local code=$?
    if grep -q "Sanitizer: \|VIOLATION " "$log"; then
        mkdir -p replays
        { echo "the build with the sanitizer $name, run with: $*"; cat "$log"; cat "$scratch"/replays/* 2>/dev/null; } >"replays/$prop-$name.txt"
        tail -30 "$log" | grep -v VIOLATION
        echo "VIOLATION property=$prop replay=$PWD/replays/$prop-$name.txt"
        rm -rf "$scratch" "$log"
        exit 1
    fi
    VMON_NOTE="sanitizer $name: exit $code, no report; $(grep -a "held on" "$log" | tail -1)"
    export VMON_NOTE
    echo "$VMON_NOTE"
    rm -rf "$scratch"
}
if [ "$VERIF_TIER" = thorough ] && [ $# = 1 ]; then
    case $1 in
    C01) sanitized address "" C01 VMON_PERMILLE=20 ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0 ;;
    C02) sanitized thread "-Zbuild-std" C02 VMON_PERMILLE=20 VMON_MODES=threads,history VMON_THREADS=2 TSAN_OPTIONS=halt_on_error=0:exitcode=66 ;;
    esac
fi
rm -f "$log"
exec harness/target/release/vmon check "$@"
