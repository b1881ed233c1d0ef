#!/bin/bash
# Builds the simulator and makes sure that it is deterministic.
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/bin/build.sh" || exit 2
exec "$here/sim/target/release/artesim" selftest 100
