#!/bin/bash
# build everything the checks share: the crates under test (instrumented), their dependencies and the simulator.
# Each check builds the harness with its workload, and whatever changed in /repo since.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/sim" && cargo build --offline --no-default-features --features deps 2>&1 | tail -1
exit "${PIPESTATUS[0]}"
