#!/bin/bash
# Builds the engine from the committed sources (vendored dependencies, offline).
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}"
mkdir -p bin evidence
cd engine
CGO_ENABLED=0 GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/engine.tmp.$$ .
mv ../bin/engine.tmp.$$ ../bin/engine
