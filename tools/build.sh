#!/bin/bash
# build.sh OUT: builds the simulator (sim/) together with the code in /repo's working tree,
# hooks enabled, into the binary OUT. Nothing is written in /repo.
set -eu
OUT=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
exec python3 "$HERE/tools/build.py" "$HERE" "$OUT"
