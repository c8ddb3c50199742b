#!/bin/bash
# run.sh check PROPERTY [quick|thorough] | run.sh replay FILE | run.sh setup
# Builds the engine from /verif/engine (into a cache outside git) and runs it.
cd "$(dirname "$0")" || exit 2
export XTV_VERIF="$PWD"
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on TZ=UTC
export GOMEMLIMIT=20GiB
BIN="$PWD/evidence/.bin"
mkdir -p "$BIN"
( cd engine && GOFLAGS=-mod=readonly CGO_ENABLED=0 go build -o "$BIN/xtv.$$" . ) || { echo "engine build failed" >&2; exit 2; }
mv -f "$BIN/xtv.$$" "$BIN/xtv"
[ "$1" = setup ] && exit 0
exec "$BIN/xtv" "$@"
