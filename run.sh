#!/bin/bash
# run.sh <property-id> quick|thorough            decide one property
# run.sh <property-id> replay <replay.fail>      re-run one recorded failure
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export CGO_ENABLED=0
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT
cd "$VERIF_ROOT/harness" || exit 3
BIN=$(mktemp -d /tmp/verif-driver.XXXXXX) || exit 3
trap 'rm -rf "$BIN"' EXIT
go build -o "$BIN/run" ./cmd/run || exit 2
"$BIN/run" "$@"
