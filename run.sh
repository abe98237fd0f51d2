#!/bin/bash
# run.sh check <id> [quick|thorough] | replay <file> | determinism <id> <runs> | ...
# Rebuilds the simulator from /repo's current tree, then runs it.
D=$(cd "$(dirname "$0")" && pwd)
bash "$D/sim/build.sh" || exit 2
export SIM_ROOT="$D"
exec "$D/sim/target/release/plonky-sim" "$@"
