#!/bin/bash
# check.sh PROPERTY TIER: builds the simulator from /repo's working tree and runs one property.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: could not be decided.
cd "$(dirname "$0")" || exit 2
root=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=$root/sim/target CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! ./build.sh "$id" >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "$id: the simulator does not build against /repo"
    exit 2
fi
rm -f "$log"
exec sim/target/release/sim run "$id" --tier "$tier" --seed "$seed" --root "$root"
