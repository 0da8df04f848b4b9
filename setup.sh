#!/bin/bash
# Builds the framework once as a sanity check; every check rebuilds what it needs by itself.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off
mkdir -p .build evidence
cd dst && go build -ldflags=-checklinkname=0 -o ../.build/vrun.setup ./cmd/vrun && echo "framework builds"
