#!/bin/bash
# replay.sh FILE [-trace]: executes a replay file against the code in /repo's working tree.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
FILE=$(realpath "$1"); shift
TMP=$(mktemp -d /tmp/verifsim.XXXXXX) || exit 2
trap '/bin/rm -rf "$TMP"' EXIT
bash "$HERE/tools/build.sh" "$TMP/sim" || exit 2
"$TMP/sim" replay -known "$HERE/known_findings.txt" "$@" "$FILE"
