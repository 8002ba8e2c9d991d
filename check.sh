#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator over /repo as it is now and run one check
cd "$(dirname "$0")/sim" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "the simulator does not build"
    exit 2
fi
rm -f "$log"
exec target/release/ressa-sim check "$1"
