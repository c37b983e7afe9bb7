#!/bin/bash
# check.sh ID quick|thorough: builds the checker against /repo's working tree and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/.build" CARGO_NET_OFFLINE=true
mkdir -p "$here/.build" "$here/evidence"
log="$here/.build/build.log"
mc="$here/.build/release/mc"
build() { cargo build --release --offline --locked; }
case "$1" in
C25 | C26 | cov) # every basic block and load reports itself
    log="$here/.build/build-cov.log"
    mc="$here/.build/cov/x86_64-unknown-linux-gnu/release/mc"
    sancov=-sanitizer-coverage
    export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=$sancov-level=3 -Cllvm-args=$sancov-trace-pc-guard -Cllvm-args=$sancov-trace-loads"
    build() { CARGO_TARGET_DIR="$here/.build/cov" cargo build --release --offline --locked --features cov --target x86_64-unknown-linux-gnu; }
    ;;
esac
if ! (cd "$here/mc" && build) >"$log" 2>&1; then
    tail -40 "$log"
    echo "check.sh: the checker does not build against /repo (see above)" >&2
    exit 2
fi
[ "$1" = cov ] && exit 0
exec "$mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
