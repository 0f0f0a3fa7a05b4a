#!/bin/bash
# build and run one harness check from the working tree, quickly: run.sh CRATE ID [args]
. /verif/tools/env.sh; export VERIF_DIR=/verif
python3 /verif/tools/mkws.py && cd /verif/.build/ws && cargo build --offline -q -p $1 2>&1 | grep -E "^error" -A12 | head -${LINES_MAX:-80}
crate=$1; shift
timeout ${T:-300} $CARGO_TARGET_DIR/debug/$crate "$@" 2>&1 | cut -c1-2500 | tail -${TAIL:-30}
