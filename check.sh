#!/bin/bash
# usage: check.sh PROPERTY...   decides the properties for the source tree in /repo
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod
BIN="${RIPCHECK_BIN:-}"
if [ -z "$BIN" ]; then
  mkdir -p "$V/.build"
  BIN="$V/.build/ripcheck"
  (cd "$V/ripcheck" && go build -o "$BIN.$$" . && mv -f "$BIN.$$" "$BIN") || { echo "cannot build the analyzer"; exit 2; }
fi
export GOFLAGS=-mod=readonly
exec "$BIN" -repo "${RIPCHECK_REPO:-/repo}" -verif "$V" "$@"
