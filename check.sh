#!/bin/bash
# usage: check.sh <property> [quick|thorough] | check.sh replay <file>
# Builds the simulator with the workload of one property from /repo's current working tree and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export VERIF_DIR="$here"
export VERIF_SEED="${VERIF_SEED:-1}"
if [ "${1:-}" = replay ]; then
  prop="$(sed -n 's/^property[ =:]*//p' "$2" | head -1)"
else
  prop="${1:?property}"
fi
feat="$(echo "$prop" | tr 'A-Z' 'a-z')"
tier="${2:-${VERIF_TIER:-quick}}"
[ "$1" = replay ] && tier="$(sed -n 's/^tier //p' "$2" | head -1)"
[ "$feat$tier" = c20thorough ] && feat=c20full
log="$here/sim/target/build-$prop.log"
mkdir -p "$here/sim/target/bin" "$here/evidence"
if ! (cd "$here/sim" && cargo build --offline --no-default-features --features "$feat" >"$log" 2>&1); then
  echo "build failed, see $log" >&2
  tail -40 "$log" >&2
  exit 2
fi
bin="$here/sim/target/bin/rsim-$prop"
cp -f "$CARGO_TARGET_DIR/debug/rsim" "$bin.new" && mv -f "$bin.new" "$bin"
if [ "$1" = replay ]; then
  exec "$bin" replay "$2"
fi
exec "$bin" check "$prop" "$tier"
