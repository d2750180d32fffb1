#!/bin/bash
# check.sh PROPERTY [TIER]: builds the analyzer when needed and runs one check
# against the current source of /repo. check.sh build: only builds.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/tmp}"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT
bin="$here/bin/leavescheck"
id="$1"
stale=1
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -maxdepth 1 \( -name '*.go' -o -name go.mod \) -newer "$bin" -print -quit)" ]; then
  stale=0
fi
if [ "$stale" = 1 ]; then
  mkdir -p "$here/bin"
  if ! (cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
    echo "the analyzer does not build"
    exit 2
  fi
fi
[ "$id" = build ] && exit 0
export VERIF_DIR="$here" GOFLAGS=-mod=mod
exec "$bin" check "$id" "${2:-${VERIF_TIER:-quick}}"
