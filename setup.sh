#!/bin/bash
# Compiles the driver and the code under test once so that later builds come from the build cache.
set -eu
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
(cd h && go vet . && go build -o /dev/null .)
(cd /repo && go build -o /dev/null ./cmd/j8a && go build -race -o /dev/null ./cmd/j8a)
echo setup ok
