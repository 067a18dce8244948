#!/bin/bash
# developer helper: build one property's harness and run its quick check
. /verif/env.sh; cd /verif/sim; f=$(echo "$1" | tr A-Z a-z); l=$(mktemp)
if ! cargo build --offline --no-default-features --features $f >$l 2>&1; then grep -E "^error" -A12 $l | head -${2:-80}; rm -f $l; exit 3; fi; rm -f $l
VERIF_DIR=/verif VERIF_SEED=${SEED:-1} timeout 800 ./target/debug/rsim check $1 quick 2>&1 | cut -c1-1800 | tail -30
