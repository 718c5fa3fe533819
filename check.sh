#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the coordinator and runs the check of one property.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off SIM_ROOT="$here"
mkdir -p "$here/.build"
cd "$here/sim"
go build -o "$here/.build/simctl" ./cmd/simctl || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
VERIF_TIER="$tier" exec "$here/.build/simctl" check "$1"
