#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and decides one property.
# exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: trouble of the check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} TZ=UTC
W=$(mktemp -d /tmp/dstcheck.XXXXXX) || exit 3
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
bash "$HERE/build.sh" "$W/b" || exit 3
"$W/b/dst" check "$1" -verif "$HERE" -sites "$W/b" "${@:2}"
exit $?
