#!/bin/bash
# run.sh <property id>: rebuild the harness against /repo's working tree and run one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check could not give an answer.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
export VERIF_EVIDENCE_DIR="$here/evidence" VERIF_REPLAY_DIR="$here/replays"
case "$1 $2" in
C34*|replay*/C34-*) build_asan || build || exit 2 ;;
*) build || exit 2 ;;
esac
if [ "$1" = replay ]; then
    exec "$bin" replay "$2"
fi
exec "$bin" check "$1"
