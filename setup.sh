#!/bin/bash
# Builds every check once, so that the checks themselves rebuild only what changed in /repo.
. "$(dirname "$0")/build_env.sh"
cd "$(dirname "$0")/mc" && cargo build --release --offline --locked --bins --all-features 2>&1 | tail -3
exit 0
