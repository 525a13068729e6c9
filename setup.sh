#!/bin/bash
# Builds the framework once, so that later checks only rebuild what changed in /repo.
export OXY_VERIF="$(cd "$(dirname "$0")" && pwd)"
. "$OXY_VERIF/tools/build.sh" || exit 1
