#!/bin/bash
# Builds the checker, the instrumented one (C25, C26) and the variants of C24, so
# that later builds have less to do where .build/ is kept.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
(cd "$here/mc" && CARGO_TARGET_DIR="$here/.build" cargo build --release --offline --locked) && "$here/check.sh" cov && "$here/.build/release/mc" prepare
