#!/bin/bash
# Builds the monitors once; every check rebuilds incrementally from /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
source "$here/tools/build.sh"
(harness_build ampmon) && (harness_build ampdmon)
