#!/bin/bash
# Builds the symbolic execution engine and warms the build cache.
set -e
cd "$(dirname "$0")/engine"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/gosym .
