#!/bin/bash
# Builds the monitor of one property against /repo's working tree and runs it.
# usage: run.sh <ID> [--case phase:index]
id="$1"; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS
mkdir -p "$VERIF_DIR/work" "$VERIF_DIR/evidence"
[ "$id" = C28 ] && exec python3 "$VERIF_DIR/programs/run28.py" "$@"
log="$VERIF_DIR/work/build-$bin.log"
cd "$VERIF_DIR/harness" || exit 3
profile=dev; out=debug
# Without optimizations, which could turn a recursion into a loop
[ "$id" = C08 ] && { profile=plain; out=plain; }
# Also without debug assertions and overflow checks, on whose absence code may depend. C23 has its
# own builds.
bare=
[ "$id" = C23 ] || { cargo build --offline --profile bare --bin "$bin" >"$log.bare" 2>&1 & bare=$!; }
cargo build --offline --profile "$profile" --bin "$bin" >"$log" 2>&1; built=$?
[ -z "$bare" ] || wait "$bare" || { [ "$built" = 0 ] && cp "$log.bare" "$log"; built=1; }
if [ "$built" != 0 ]; then
  if [ "$id" = C14 ]; then
    # The harness contains many derived types. If the libraries build but valid derived types
    # don't, that is a violation and not a reason to give up.
    bash "$VERIF_DIR/mini.sh" >"$VERIF_DIR/work/replay-C14.txt"
    if [ $? = 1 ]; then
      echo "replay: bash $VERIF_DIR/mini.sh" >>"$VERIF_DIR/work/replay-C14.txt"
      cat "$VERIF_DIR/work/replay-C14.txt"
      echo "VIOLATION property=C14 replay=$VERIF_DIR/work/replay-C14.txt"
      exit 1
    fi
  fi
  tail -40 "$log"
  echo "INCONCLUSIVE $id does not build against the current tree (see $log)"
  exit 3
fi
[ -n "$bare" ] && export VERIF_BARE="$CARGO_TARGET_DIR/bare/$bin"
[ -n "$VERIF_UNCHECKED" ] && out=bare
exec "$CARGO_TARGET_DIR/$out/$bin" "$@"
