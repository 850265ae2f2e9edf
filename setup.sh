#!/bin/bash
# Builds the verifier once (warms the build cache); every check builds it again from the committed source.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine" && GOFLAGS=-mod=vendor go build -o /dev/null . && cd /repo && GOFLAGS=-mod=vendor go build ./...
