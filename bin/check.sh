#!/bin/bash
# check.sh <property> [quick|thorough]
here=$(cd "$(dirname "$0")/.." && pwd)
[ -n "${2:-}" ] && export VERIF_TIER=$2
export VERIF_HOME=$here
"$here/bin/build.sh" || exit 2
exec "$here/sim/target/release/artesim" check "$1"
