#!/bin/bash
# Builds everything once, offline, to warm the build cache and to fail early.
dir="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off VERIF_DIR="$dir"
mkdir -p "$dir/.build"
(cd "$dir/simrun" && go vet . && go build -buildvcs=false -o "$dir/.build/simrun.setup" .) || exit 1
VERIF_SECONDS=1 "$dir/.build/simrun.setup" check C01 quick > /dev/null
[ $? -le 1 ] || exit 1
rm -f "$dir/.build/simrun.setup"
rm -f "$dir"/replays/*
exit 0
