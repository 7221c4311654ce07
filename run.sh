#!/bin/bash
# run.sh <property> [quick|thorough] | replay <file> | --build
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=/verif/target
export CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
build() {
    local log=target/build.$$.log
    if ! cargo build --release --offline --manifest-path "$1/Cargo.toml" >"$log" 2>&1; then
        grep -A8 '^error' "$log" | head -60 >&2
        echo "$1 does not build against /repo" >&2
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
build harness
case "$1" in
--build | replay | C32) build cli ;;
esac
case "$1" in
--build) exit 0 ;;
replay) exec target/release/harness replay "$2" ;;
*) exec target/release/harness run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
