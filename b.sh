#!/bin/bash
# dev helper: build one bin and run it
. /verif/build_env.sh
b=$1; shift
cd /verif/mc && cargo build --release --offline --bin $b ${FEAT:+--features $FEAT} 2>&1 | grep -E "^error" -A9 | head -${LINES_MAX:-40}
MC_EVIDENCE=${MC_EVIDENCE:-/tmp/ev} timeout ${TMO:-900} /verif/target/release/$b "$@" 2>&1 | tail -60
