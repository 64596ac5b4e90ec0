#!/bin/bash
# Warms the build cache; every check builds for itself.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$HERE/mc" && cp go.mod go.sum "$W"/ && go build -modfile="$W/go.mod" -o "$W/mc" ./cmd/mc
