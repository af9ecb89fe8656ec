#!/bin/bash
# Builds everything once from the committed files.
HERE=$(cd "$(dirname "$0")" && pwd)
"$HERE/build.sh" && "$HERE/build.sh" oidn
