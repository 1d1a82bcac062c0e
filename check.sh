#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property against /repo's working tree
# check.sh --build                     build the simulator
# check.sh --replay FILE               replay a recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. ./env.sh
export CARGO_TARGET_DIR=$PWD/sim/target
bin=$CARGO_TARGET_DIR/debug/ibcx-sim

build() {
    local log=$PWD/sim/target/build.log
    mkdir -p sim/target
    if ! (cd sim && cargo build --offline --locked) >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "check.sh: the simulator does not build against /repo" >&2
        return 2
    fi
}

case "$1" in
    "") echo "usage: check.sh PROPERTY [quick|thorough] | --build | --replay FILE" >&2; exit 2 ;;
    --build) build; exit $? ;;
    --replay) build || exit 2; exec "$bin" replay "$2" ;;
    *) build || exit 2; exec "$bin" check "$1" ${2:+"$2"} ;;
esac
