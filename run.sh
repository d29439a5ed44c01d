#!/bin/bash
# run.sh ID            run the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED, VERIF_CASES)
# run.sh replay FILE   run one recorded failing case again
# Rebuilds the harness, and with it coffer from /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true RUST_MIN_STACK=
unset RUST_MIN_STACK RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p out evidence
log=out/build.$$.log
if ! (cd harness && CARGO_TARGET_DIR="$VERIF_ROOT/harness/target" cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$VERIF_ROOT/$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$VERIF_ROOT/$log"
exec ./harness/target/release/check "$@"
