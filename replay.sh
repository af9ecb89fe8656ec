#!/bin/bash
# usage: replay.sh FILE   re-executes a recorded violation in a fresh process
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
if grep -q '"property": "C11"' "$1"; then
  "$HERE/build.sh" oidn && exec "$HERE/sim/target-oidn/release/simcheck" replay "$1"
else
  "$HERE/build.sh" && exec "$HERE/sim/target/release/simcheck" replay "$1"
fi
