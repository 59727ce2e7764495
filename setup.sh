#!/bin/bash
# Compiles the driver and the property tests once (warms the build cache).
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
cd "$(dirname "${BASH_SOURCE[0]}")/harness" || exit 1
OUT=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$OUT"' EXIT
go build -o "$OUT/run" ./cmd/run && go test -c -vet=off -o "$OUT/t" ./checks
