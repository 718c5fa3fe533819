#!/bin/bash
# Builds the coordinator and, once, the simulator (to see early that it can be built).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off SIM_ROOT="$here"
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
cd "$here/sim"
go build -o "$here/.build/simctl" ./cmd/simctl
exec "$here/.build/simctl" selftest
