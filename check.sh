#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra flags]
# Rebuilds the checker against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
. /opt/vp/env.sh >/dev/null 2>&1
cd "$VERIF/mc" || exit 2
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off
BIN=$(mktemp -d "${TMPDIR:-/tmp}/mcbin.XXXXXX") || exit 2
trap 'rm -rf "$BIN"' EXIT
export VERIF_BIN="$BIN"
case $PROP in
C18) # sync and sync/atomic are replaced by those of the scheduler
	go build -o "$BIN/overlay" ./cmd/overlay && "$BIN/overlay" /repo "$BIN/ov" &&
		go build -race -overlay "$BIN/ov/overlay.json" -gcflags=github.com/wI2L/jettison=-d=checkptr=0 -o "$BIN/mc" ./cmd/mc18 || exit 2 ;;
C24) (cd /repo && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$BIN/benchparse" ./tools/benchparse) && go build -o "$BIN/mc" ./cmd/mc || exit 2 ;;
*) go build -o "$BIN/mc" ./cmd/mc || exit 2 ;;
esac
"$BIN/mc" run -prop "$PROP" -tier "$TIER" -verif "$VERIF" "$@"
