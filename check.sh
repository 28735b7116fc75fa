#!/bin/bash
# check.sh <ID> quick|thorough : build the checker against /repo's working tree and decide one property
# check.sh replay <file>       : run a recorded violation again
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_LOG
export CARGO_NET_OFFLINE=true
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
if ! (cd harness && cargo build --release --offline --quiet) >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" >&2
    echo "the checker could not be built against /repo" >&2
    exit 2
fi
bin=harness/target/release/kmc
case "$1" in
    build) exit 0 ;;
    replay) "$bin" replay "$2" ;;
    *) "$bin" check "$1" "${2:-quick}" ;;
esac
rc=$?
# the code under test aborted the process or overran the stack (it has no other way to end like this)
if [ "$1" != replay ] && { [ $rc -eq 134 ] || [ $rc -eq 139 ]; }; then
    mkdir -p replays
    echo "property: $1 - the process was aborted (status $rc) while exploring; run: harness/target/release/kmc run $1 ${2:-quick}" >"replays/$1.txt"
    echo "VIOLATION property=$1 replay=$VERIF_ROOT/replays/$1.txt"
    exit 1
fi
if [ $rc -gt 1 ]; then echo "checker ended with status $rc" >&2; exit 2; fi
exit $rc
