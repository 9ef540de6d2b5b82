#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh [race]
set -e
VD=$(cd "$(dirname "$0")" && pwd)
. "$VD/env.sh"
B=${VERIF_BUILD:-$VD/build}
mkdir -p "$B"
cd "$VD/sim"
go build -o "$B/instrument" ./cmd/instrument
rm -rf "$B/inst"
"$B/instrument" -src "${VERIF_SRC:-/repo}" -as /repo -out "$B/inst" >"$B/instrument.log"
go build -overlay "$B/inst/overlay.json" -o "$B/simrun" ./cmd/simrun
if [ "$1" = race ]; then
  go build -race -overlay "$B/inst/overlay.json" -o "$B/simrun_race" ./cmd/simrun
fi
