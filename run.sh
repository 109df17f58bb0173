#!/bin/bash
# run.sh PROPERTY [tier]: build the check of PROPERTY against /repo's working tree and run it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
. "$here/env.sh"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
bin="$(echo "$prop" | tr A-Z a-z)"
src="$(ls -d "$here"/mc/*/src/bin/"$bin".rs "$here"/mc2/*/src/bin/"$bin".rs 2>/dev/null | head -1)"
[ -n "$src" ] || { echo "no check for $prop" >&2; exit 2; }
pkg="$(basename "$(dirname "$(dirname "$(dirname "$src")")")")"
ws="$(dirname "$(dirname "$(dirname "$(dirname "$src")")")")"
log="$CARGO_TARGET_DIR/build-$prop.log"; mkdir -p "$CARGO_TARGET_DIR"
if ! (cd "$ws" && cargo build --offline --locked -q -p "$pkg" --bin "$bin" >"$log" 2>&1); then
  tail -60 "$log" >&2; echo "check $prop: build failed" >&2; exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$tier"
