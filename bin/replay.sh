#!/bin/bash
# replay.sh <replay file> [-v]: runs the recorded execution again
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/bin/build.sh" || exit 2
exec "$here/sim/target/release/artesim" replay "$@"
