#!/bin/bash
# run.sh <property>: build the monitors against /repo's current tree and run one check.
# run.sh replay <file>: run the one execution a replay file describes.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
source "$here/tools/build.sh"
if [ "$1" = replay ]; then
    id=$(grep -o '"property": *"C[0-9]*"' "$2" | grep -o 'C[0-9]*' | head -1)
else
    id=$1
fi
log=$(mktemp)
if ! harness_build "$(harness_of "$id")" >"$log" 2>&1; then
    tail -60 "$log"; rm -f "$log"
    echo "HARNESS-ERROR build failed"
    exit 3
fi
rm -f "$log"
exec "$HARNESS" "$@"
