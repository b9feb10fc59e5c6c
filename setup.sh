#!/bin/bash
# builds the symbolic engine from its vendored sources
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../bin ../evidence ../replays
exec env GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/symgo .
