#!/bin/bash
# run.sh ENTRY [limit]
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export MIRSYM_ENTRY=$1 MIRSYM_OUT=/tmp/out.$1.json MIRSYM_DIR=/tmp/ms.$1 MIRSYM_LIMIT=${2:-300} RUST_MIN_STACK=2000000000
mapfile -d '' A < /verif/build/args
cd $(cat /verif/build/args.cwd)
mkdir -p $MIRSYM_DIR
/verif/engine/target/release/mirsym "${A[@]}"
