#!/bin/bash
# Builds every monitor once (each check also builds what it needs itself).
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
mkdir -p "$VERIF_DIR/work" "$VERIF_DIR/evidence"
cd "$VERIF_DIR/harness" && { cargo build --offline --bins && cargo build --offline --profile plain --bin c08 && cargo build --offline --profile bare --bins; } >"$VERIF_DIR/work/setup.log" 2>&1 || { tail -30 "$VERIF_DIR/work/setup.log"; exit 1; }
echo "setup done"
