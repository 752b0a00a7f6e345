#!/bin/bash
# builds the analyzer, offline
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod
mkdir -p "$V/.build" "$V/evidence"
cd "$V/ripcheck" && go build -o "$V/.build/ripcheck" .
