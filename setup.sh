#!/bin/bash
# Builds every check once so that later runs only rebuild what changed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" || exit 4
. "$here/build.sh"
build_bins compilecheck && build_bins harness --bins
