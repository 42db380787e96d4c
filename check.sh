#!/bin/bash
# check.sh <property> [quick|thorough]   builds the harness against /repo's working tree and runs one check
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/target" VERIF_DIR="$PWD"
TIER="${2:-${VERIF_TIER:-quick}}"
cd harness || exit 3
LOG="$(mktemp)"
# cargo goes by mtimes: without this, a file put back with an old mtime would not be rebuilt
cargo clean --offline --release -p prosemirror >/dev/null 2>&1
if ! cargo build --offline --release >"$LOG" 2>&1; then
    cat "$LOG" >&2
    rm -f "$LOG"
    echo "the harness does not build against /repo" >&2
    exit 3
fi
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/release/harness" check "$1" --tier "$TIER" --seed "${VERIF_SEED:-1}"
