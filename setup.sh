#!/bin/bash
# Builds the symbolic executor (offline, from the vendored sources).
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
mkdir -p build
cd gosym && go build -mod=vendor -o ../build/gosym .
