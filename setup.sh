#!/bin/bash
# Builds the analyzer into bin/ from the committed sources, offline.
cd "$(dirname "$0")/analyzer" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0
mkdir -p ../bin
exec go build -o ../bin/fvet .
