#!/bin/bash
# Usage: replay.sh <replay file>: re-runs the one case a violation names.
set -u
f="$1"
here="$(cd "$(dirname "$0")" && pwd)"
get() { sed -n "s/^$1=//p" "$f" | head -1; }
cat "$f"
VERIF_TIER="$(get tier)" exec "$here/run.sh" "$(get property)" --case "$(get task):$(get ordinal)"
