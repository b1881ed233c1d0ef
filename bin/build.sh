#!/bin/bash
# Builds the simulator with the code in /repo's working tree in it.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
repo=/repo
cd "$here/sim" || exit 2
mkdir -p target
exec 9>target/.build-lock
flock 9
# cargo goes by modification times; what counts is the content
hash=$(cd "$repo" && { find src erreur Cargo.toml -type f -not -path '*/target/*' 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; rustc -V; } | sha256sum | cut -c1-64)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$hash" ]; then
  rm -f "$here/sim/target/.repo-hash"
  find "$here/sim/target/release/.fingerprint" -maxdepth 1 -type d \
    \( -name 'artefacta-*' -o -name 'simmain-*' -o -name 'erreur-*' -o -name 'artesim-*' \) \
    -exec rm -rf {} + 2>/dev/null
fi
log=$(mktemp)
if ! RUSTFLAGS="--cfg artefacta_sim" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target" \
    cargo build --release --offline --locked >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the simulator could not be built" >&2
  exit 2
fi
rm -f "$log"
echo "$hash" >target/.repo-hash
