#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator and runs one check.
# check.sh replay <file>: runs a replay file.
dir="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off VERIF_DIR="$dir"
mkdir -p "$dir/.build"
(cd "$dir/simrun" && go build -buildvcs=false -o "$dir/.build/simrun.$$" .) || exit 2
trap 'rm -f "$dir/.build/simrun.$$"' EXIT
if [ "$1" = replay ]; then
  "$dir/.build/simrun.$$" replay "$2"
else
  "$dir/.build/simrun.$$" check "$1" "${2:-quick}"
fi
