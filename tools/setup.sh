#!/bin/bash
# setup.sh: checks that the simulator builds (every check builds its own).
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
TMP=$(mktemp -d /tmp/verifsim.XXXXXX) || exit 2
trap '/bin/rm -rf "$TMP"' EXIT
bash "$HERE/tools/build.sh" "$TMP/sim"
