#!/bin/bash
# replay.sh FILE: runs a counterexample against the real code; exit 1 if it fails there.
D="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
[ -x "$D/bin/gosym" ] || bash "$D/setup.sh"
exec "$D/bin/gosym" -repo /repo -verif "$D" -replay "$1"
