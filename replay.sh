#!/bin/bash
# replay.sh FILE: builds the simulator from /repo's working tree and runs one replay file.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export TZ=UTC GOMAXPROCS=1
W=$(mktemp -d /tmp/dstreplay.XXXXXX) || exit 3
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
bash "$HERE/build.sh" "$W/b" || exit 3
"$W/b/dst" replay "$1"
exit $?
