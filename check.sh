#!/bin/bash
# check.sh <ID> <quick|thorough>   build the simulator against /repo's working tree, run one property's check
# check.sh replay <file>           replay a violation
# check.sh determinism [runs]      every run twice, hashes must agree
# check.sh build                   build only
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
log="$PWD/target/build.$$.log"
mkdir -p target
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "stunsim does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
build) exit 0 ;;
replay) exec target/release/stunsim replay "$2" ;;
determinism) exec target/release/stunsim determinism "$2" ;;
*) exec target/release/stunsim check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
