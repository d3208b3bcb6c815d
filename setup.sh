#!/bin/bash
# Builds everything once, so that the checks only rebuild what /repo changed.
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence"
(cd "$HERE/harness" && cargo build --offline --locked --bins) || exit 1
