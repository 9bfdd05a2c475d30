#!/bin/bash
# check.sh <property> <quick|thorough>
D="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
B="$D/bin/gosym"
if [ ! -x "$B" ] || [ -n "$(find "$D/engine" -name '*.go' -newer "$B" | head -1)" ]; then
	bash "$D/setup.sh" || { echo "INCONCLUSIVE: the engine does not build"; exit 0; }
fi
exec "$B" -repo /repo -verif "$D" -prop "$1" -tier "${2:-quick}"
