#!/bin/bash
# usage: check.sh PROPERTY [tier] [engine flags...]
# Builds the engine (cached) and decides the property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$V/.bin" "$V/evidence"
(cd engine && go build -o "$V/.bin/symgo" .) || { echo "engine build failed" >&2; exit 2; }
P=$1; shift
T=${1:-${VERIF_TIER:-quick}}; shift
exec "$V/.bin/symgo" -prop "$P" -tier "$T" -repo "${REPO:-/repo}" -verif "$V" "$@"
