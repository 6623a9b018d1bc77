#!/bin/bash
# check.sh ID quick|thorough     run the check of one property against /repo's working tree
# check.sh replay FILE           run a replay file
# check.sh build                 only build the simulator
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/.target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export SIM_KNOWN="$here/known-findings.txt"
mkdir -p "$CARGO_TARGET_DIR"
rel="$CARGO_TARGET_DIR/release/yamux-sim"

build_with() {
    (cd "$here/sim" && RUSTFLAGS="$1" cargo build --quiet --offline --locked --profile release >"$CARGO_TARGET_DIR/release.log" 2>&1) &
    local a=$!
    # A target directory of its own lets both builds run at the same time.
    (cd "$here/sim" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/d" RUSTFLAGS="$1" cargo build --quiet --offline --locked --profile simdbg >"$CARGO_TARGET_DIR/simdbg.log" 2>&1) &
    local b=$!
    wait $a; local ra=$?
    wait $b; local rb=$?
    [ $ra = 0 ] && [ $rb = 0 ]
}
dbg="$CARGO_TARGET_DIR/d/simdbg/yamux-sim"
build() {
    if ! build_with "--cfg yamux_sim"; then
        echo "building with the hook failed, trying without it"
        if ! build_with ""; then
            cat "$CARGO_TARGET_DIR/release.log" "$CARGO_TARGET_DIR/simdbg.log" | grep -E "^error" -A12 | head -60
            echo "the simulator cannot be built from this tree"
            exit 2
        fi
    fi
}

case "${1:-}" in
build)
    build
    ;;
replay)
    build
    bin=$rel
    grep -q '"binary":"simdbg"' "$2" && bin=$dbg
    exec "$bin" replay "$2"
    ;;
P[0-9][0-9])
    build
    cd "$here" || exit 2
    "$rel" check "$1" "${2:-${VERIF_TIER:-quick}}" "$rel" "$dbg" "$here"
    exit $?
    ;;
*)
    echo "usage: check.sh P01..P18 [quick|thorough] | replay FILE | build"
    exit 2
    ;;
esac
