#!/bin/bash
# Runs the stand-alone derive programs in mini/, one by one.
# Exit 0: all compile and behave; 1: some don't (they are listed); 3: the libraries don't build.
dir="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$dir/target/mini" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS
cd "$dir/mini" || exit 3
mkdir -p "$dir/work"
cargo build --offline --lib >"$dir/work/build-mini.log" 2>&1 || exit 3
bad=0
for f in src/bin/*.rs; do
  n="$(basename "$f" .rs)"
  if ! out="$(cargo build --offline --quiet --bin "$n" 2>&1)"; then
    echo "a valid program does not compile: $n"; echo "$out" | grep -E -A12 '^error' | head -30; bad=1
  elif ! out="$(timeout -k 5 20 "$CARGO_TARGET_DIR/debug/$n" 2>&1)"; then
    echo "a valid program goes wrong: $n"; echo "$out" | tail -5; bad=1
  fi
done
exit $bad
