#!/bin/bash
# check.sh <property> quick|thorough   search for a violation (exit 0/1)
# check.sh replay <file> [-v]          re-execute a replay file
# Rebuilds the simulation from /repo's current working tree first.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
./build.sh || exit 2
if [ "$1" = replay ]; then
    shift
    exec .build/bin/harness replay "$@"
fi
exec .build/bin/harness check "$1" "${2:-quick}"
