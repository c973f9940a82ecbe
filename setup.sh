#!/bin/bash
# Builds the engine from the committed sources (offline).
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p .bin evidence
cd engine && go vet . >/dev/null 2>&1; go build -o ../.bin/symgo .
