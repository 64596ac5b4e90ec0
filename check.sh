#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the checker against the library's current working tree and runs one check.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_ROOT=$HERE VERIF_SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
sed "s#=> /repo/protocol#=> $REPO/protocol#" "$HERE/mc/go.mod" > "$W/go.mod" && cp "$HERE/mc/go.sum" "$W/go.sum" || exit 2
cd "$HERE/mc" || exit 2
if ! go build -modfile="$W/go.mod" -o "$W/mc" ./cmd/mc; then echo "check.sh: build failed"; exit 2; fi
if [ "$1" = C21 ]; then
  go build -race -modfile="$W/go.mod" -o "$W/mc-race" ./cmd/mc || { echo "check.sh: race build failed"; exit 2; }
  export VERIF_RACE_BIN=$W/mc-race
fi
TMPDIR=$W "$W/mc" run "$1" "${2:-quick}"
