#!/bin/bash
# check.sh PROPERTY [quick|thorough] [driver flags]: builds the simulator from
# /repo's working tree and explores the property. Exit 0: held; 1: VIOLATION;
# anything else: the check itself had a problem.
VD=$(cd "$(dirname "$0")" && pwd)
P=$1; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER=$1; shift; fi
B=${VERIF_BUILD:-$VD/build}
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
R=
case $P in C06|C07|C09|C10|C13) R=race;; esac
if ! VERIF_BUILD="$B" "$VD/build.sh" $R >"$B/build.log" 2>&1; then
  echo "ERROR: the simulator does not build" >&2
  tail -n 40 "$B/build.log" >&2
  exit 3
fi
if [ -n "$R" ]; then R="-racebin $B/simrun_race"; fi
"$B/simrun" check -prop "$P" -dir "$VD" -bin "$B/simrun" $R "$@" 9>&-
