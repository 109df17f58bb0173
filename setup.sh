#!/bin/bash
# builds the checks (each check also builds what it needs by itself)
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
. "$here/env.sh"
for ws in mc mc2; do
  [ -f "$here/$ws/Cargo.toml" ] && (cd "$here/$ws" && cargo build --offline --locked -q --bins) || true
done
exit 0
