#!/bin/bash
# Builds the framework once; every check rebuilds what changed.
cd "$(dirname "$0")" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
. ./build.sh
fresh
build --bins
build --features compiler --bins
build_hampi
externs
build_e2e 320
