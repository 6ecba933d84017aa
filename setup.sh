#!/bin/bash
# Builds the checkers once, so that later builds find a warm cache where it is kept.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$VERIF/mc" || exit 2
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off
go vet ./core ./drive ./ref >/dev/null 2>&1
go build -o /dev/null ./cmd/... || exit 1
go build -race -o /dev/null ./cmd/mc18 >/dev/null 2>&1
mkdir -p "$VERIF/evidence"
