#!/bin/bash
# Usage: run.sh <property id> [--case TASK:ORDINAL]
# Builds the check of one property against /repo's working tree and runs it.
# Exit 0: held; 1: violated; anything else: the check itself failed.
set -u
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-0}"
export CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" || exit 4
. "$here/build.sh"
broken() { echo "$id: the check does not build against /repo" >&2; exit 4; }
if [ "$id" = C02 ]; then
    build_bins compilecheck || broken
    bin=compilecheck
    export C02_DEPS="$CARGO_TARGET_DIR/release/deps"
    C02_RLIB="$(ls -t "$C02_DEPS"/libtclifford-*.rlib | head -1)" || broken
    export C02_RLIB
    # rustc leaves notes about long type names where it runs
    export C02_SCRATCH="$CARGO_TARGET_DIR/scratch.$$"
    mkdir -p "$C02_SCRATCH" || broken
    trap 'rm -rf -- "${C02_SCRATCH:?}"' EXIT
else
    bin="$(printf '%s' "$id" | tr 'A-Z' 'a-z')"
    build_bins harness --bin "$bin" || broken
fi
"$CARGO_TARGET_DIR/release/$bin" "$@"
exit $?
