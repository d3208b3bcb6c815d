#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitor of one property against /repo's working
# tree and runs it.  Exit 0 held, 1 VIOLATION, anything else: no verdict.
ID="$1"
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_ROOT="$HERE" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
. "$HERE/env.sh"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
mkdir -p "$HERE/evidence" "$HERE/replay" "$CARGO_TARGET_DIR"
rm -f "$HERE/evidence/$ID.json"
CLI=""
case "$ID" in C02|L04|L05) CLI="--bin die-e-cli" ;; esac # the command line program itself
LOG="$CARGO_TARGET_DIR/build-$BIN.log"
if ! (cd "$HERE/harness" && flock "$CARGO_TARGET_DIR/.verif-lock" cargo build --offline --locked --bin "$BIN" $CLI) >"$LOG" 2>&1; then
    echo "$ID: the harness does not build against /repo:"
    grep -E '^error' -A6 "$LOG" | head -40
    exit 3
fi
export VERIF_CLI="$CARGO_TARGET_DIR/debug/die-e-cli"
SCRATCH="$(mktemp -d /tmp/vh-scratch-XXXXXX)"
export VERIF_SCRATCH="$SCRATCH"
mkdir -p "$SCRATCH/cwd"
LIMIT=800
[ "$VERIF_TIER" = thorough ] && LIMIT=7200
cd "$SCRATCH/cwd" || exit 3
timeout -k 10 "$LIMIT" "$CARGO_TARGET_DIR/debug/$BIN"
RC=$?
cd /
rm -rf "$SCRATCH"
case "$RC" in
134|139|132|136) # the code under test brought the process down (stack overflow, abort)
    R="$HERE/replay/$ID-seed$VERIF_SEED-crash.json"
    printf '{"property":"%s","seed":%s,"tier":"%s","what":"process ended by signal %s","rerun":"VERIF_SEED=%s VERIF_TIER=%s bash /verif/check.sh %s"}\n' \
        "$ID" "$VERIF_SEED" "$VERIF_TIER" "$((RC-128))" "$VERIF_SEED" "$VERIF_TIER" "$ID" >"$R"
    echo "$ID: the process was ended by signal $((RC-128))"
    echo "VIOLATION property=$ID replay=$R"
    exit 1 ;;
esac
exit $RC
