#!/bin/bash
# Builds the simulator once, which proves the toolchain works offline and
# fills the compiler cache.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
s=$(mktemp -d)
trap 'rm -rf -- "$s"' EXIT
"$here/tools/build.sh" "$s"
"$s/sim.test" list
