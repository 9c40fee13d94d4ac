#!/bin/bash
# usage: check.sh PROPERTY [-tier quick|thorough]
# Builds the checker against /repo's current tree and runs one property.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local VERIF_ROOT=$here
export GOCACHE=${GOCACHE:-${HOME:-/root}/.cache/go-build}
mkdir -p "$here/evidence"
cd "$here/engine" || exit 2
go build -o "$tmp/vp" ./cmd/vp || exit 2
"$tmp/vp" check "$@"
