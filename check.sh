#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   (run from anywhere)
# Builds the harness against /repo's working tree and runs one property's check.
here="$(cd "$(dirname "$0")" && pwd)"
export OXY_VERIF="$here" OXY_PROP="$1"
. "$here/tools/build.sh" || exit 3
ulimit -v 26000000 2>/dev/null
exec "$CARGO_TARGET_DIR/bin/$vp_families" check "$1" "${2:-quick}"
