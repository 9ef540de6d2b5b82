#!/bin/bash
# replay.sh FILE: replays a recorded violation against /repo's working tree.
VD=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$VD/build}
R=; grep -q '^ "race": true' "$1" && R=race
VERIF_BUILD="$B" "$VD/build.sh" $R >&2 || exit 3
export GODEBUG=clobberfree=1 GORACE="halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0" GOTRACEBACK=single GOMAXPROCS=1
if [ -n "$R" ]; then exec "$B/simrun_race" replay "$1"; fi
exec "$B/simrun" replay "$1"
