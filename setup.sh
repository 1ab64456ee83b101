#!/bin/bash
# Builds the explorer once so that the toolchain's caches are warm.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$here/mc" && go build -buildvcs=false -o /dev/null ./cmd/mc
