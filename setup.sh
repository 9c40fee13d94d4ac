#!/bin/bash
# Warms the build cache: builds the checker once.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd "$here/engine" && go build -o /dev/null ./cmd/vp
