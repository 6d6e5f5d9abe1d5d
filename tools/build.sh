#!/bin/bash
# build.sh OUT: builds the simulator with /repo's working tree inside it, into
# OUT/sim.test. Everything is written under OUT.
set -e
out=${1:?usage: build.sh OUT}
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${BPASS_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOCACHE=${VERIF_GOCACHE:-$out/cache} GOTMPDIR= GOWORK=off CGO_ENABLED=0
mkdir -p "$out"
rm -rf "$out/ov"
python3 "$here/tools/mkoverlay.py" "$out/ov" "$repo" "$here"
cd "$repo"
go test -c -vet=off -modfile="$out/ov/go.mod" -overlay "$out/ov/overlay.json" \
   -ldflags=-checklinkname=0 -o "$out/sim.test" .
