#!/bin/bash
# check.sh PROPERTY [TIER]: builds the simulator from /repo's working tree and runs the check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
TMP=$(mktemp -d /tmp/verifsim.XXXXXX) || exit 2
trap '/bin/rm -rf "$TMP"' EXIT
bash "$HERE/tools/build.sh" "$TMP/sim" || exit 2
"$TMP/sim" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$HERE"
