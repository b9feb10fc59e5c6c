#!/bin/bash
# usage: run.sh <property> ; tier from VERIF_TIER (quick or thorough)
# Decides one property on /repo's working tree and writes evidence/<property>.json.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
if [ ! -x bin/symgo ] || [ -n "$(find engine -maxdepth 1 -name '*.go' -newer bin/symgo -print -quit)" ]; then
	./setup.sh || exit 2
fi
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec bin/symgo -verif "$V" -repo "${REPO:-/repo}" -prop "$1" "${@:2}"
