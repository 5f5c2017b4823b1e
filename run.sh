#!/bin/bash
# run.sh PROP [quick|thorough]   builds the harness against /repo's working tree and runs one check
# run.sh replay FILE             re-executes a reported violation
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
cd /verif/mc || exit 2
ulimit -c 0; mkdir -p /verif/target
cargo build --offline -q 2>/verif/target/build.log || { cat /verif/target/build.log; echo "build failed"; exit 2; }
cd /verif
exec /verif/target/debug/kmc "$@"
