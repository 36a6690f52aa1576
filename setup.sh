#!/bin/bash
# Checks that the toolchain builds the harness. The checks build for themselves.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
cd "$HERE/harness"
go build -o "$WORK/mon" ./mon
"$WORK/mon" -mode list
