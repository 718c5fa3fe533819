#!/bin/bash
# replay.sh FILE: executes a replay file again. Exit 1 and a VIOLATION line when it fails (again).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
file="$(realpath "$1")"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off SIM_ROOT="$here"
mkdir -p "$here/.build"
cd "$here/sim"
go build -o "$here/.build/simctl" ./cmd/simctl || exit 2
exec "$here/.build/simctl" replay "$file"
