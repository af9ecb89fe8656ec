#!/bin/bash
# usage: check.sh ID [quick|thorough]
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$ID" in
C11) "$HERE/build.sh" oidn || exit 2; BIN=$HERE/sim/target-oidn/release/simcheck ;;
*) "$HERE/build.sh" || exit 2; BIN=$HERE/sim/target/release/simcheck ;;
esac
exec "$BIN" run --prop "$ID" --tier "$TIER" --seed "$SEED" --root "$HERE"
