#!/bin/bash
# check.sh ID [quick|thorough]: build what the check needs from /repo's working
# tree and run it.  Exit 0 held, 1 violation (with a VIOLATION line), 2 error.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p target evidence replays
. ./build.sh

case $ID in
C01 | C02 | C03 | C04 | C05 | C06)
    fresh
    build --bin codec
    exec target/debug/codec --property "$ID" --tier "$TIER"
    ;;
C13 | C14 | C15 | C16 | C17 | C18 | C19 | C20)
    fresh
    build --features compiler --bin compiler
    build_hampi
    [ "$ID" = C20 ] && externs
    exec target/debug/compiler --property "$ID" --tier "$TIER"
    ;;
C07 | C08 | C09 | C10 | C11 | C12)
    fresh
    [ "$TIER" = thorough ] && build_e2e 1280 || build_e2e 320
    exec target/e2e/debug/e2e --property "$ID" --tier "$TIER"
    ;;
*)
    echo "error: no check for $ID"
    exit 2
    ;;
esac
