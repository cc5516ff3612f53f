#!/bin/bash
# Builds the monitors once to warm the build cache (plain and with the race detector).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
SCRATCH=$(mktemp -d /tmp/vmon.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
cp -r harness "$SCRATCH/harness" && cd "$SCRATCH/harness" && go build -o "$SCRATCH/vmon" . && go build -race -o "$SCRATCH/vmon" . || exit 1
