#!/bin/bash
# Usage: check.sh ID [RUNS] -- builds the simulator with /repo's current tree and runs one check.
# check.sh --build only builds. check.sh --replay FILE replays one recorded violation.
cd "$(dirname "$0")/sim" || exit 2
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp)
build() {
    cargo build --offline --locked >"$log" 2>&1 && return
    # /repo's dependencies may have changed: resolve again, and leave the committed lock file as it is
    cp Cargo.lock "$log.lock" && cargo build --offline >"$log" 2>&1
    local rc=$?
    cp "$log.lock" Cargo.lock; rm -f "$log.lock"
    return $rc
}
if ! build; then
    cat "$log"
    rm -f "$log"
    echo "the simulator does not build with /repo's current tree"
    exit 2
fi
rm -f "$log"
export SPOPSIM_ROOT=${SPOPSIM_ROOT:-$(cd .. && pwd)}
case "$1" in
--build) exit 0 ;;
--replay) shift; exec target/debug/spopsim replay "$@" ;;
*) exec target/debug/spopsim check "$@" ;;
esac
