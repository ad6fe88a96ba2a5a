#!/bin/bash
# check.sh <property> [quick|thorough]   build from /repo's working tree and run one check
# check.sh replay <property> <file>      re-execute a recorded violation on the real code
set -u
if [ "${1:-}" = replay ]; then prop=$2; else prop=$1; export VERIF_TIER=${2:-${VERIF_TIER:-quick}}; fi
. /verif/build_env.sh
bin=$(echo "$prop" | tr A-Z a-z)
cd /verif/mc || exit 2
if ! cargo build --release --offline --locked --quiet --bin "$bin" --all-features >/tmp/mc-build.$$ 2>&1; then
  cat /tmp/mc-build.$$ >&2; rm -f /tmp/mc-build.$$; echo "build of the harness against /repo failed" >&2; exit 2
fi
rm -f /tmp/mc-build.$$
if [ "$1" = replay ]; then exec "$CARGO_TARGET_DIR/release/$bin" replay "$prop" "$3"; fi
exec "$CARGO_TARGET_DIR/release/$bin" "$prop"
