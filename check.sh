#!/bin/bash
# check.sh <property>            run the property's check (VERIF_SEED, VERIF_TIER)
# check.sh --replay <file>       replay a recorded failing run
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off
R=${VERIF_REPO:-/repo}
mkdir -p "$V/.build"
bin="$V/.build/vrun.$$"
trap 'rm -f "$bin"' EXIT
(cd dst && go build -ldflags=-checklinkname=0 -o "$bin" ./cmd/vrun) || { echo "ERROR cannot build vrun"; exit 3; }
if [ "${1:-}" = "--replay" ]; then
  "$bin" -verif "$V" -repo "$R" -replay "$2"
else
  p=$1; shift
  "$bin" -verif "$V" -repo "$R" -prop "$p" -tier "${VERIF_TIER:-quick}" "$@"
fi
