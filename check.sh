#!/bin/bash
# usage: check.sh <property> [thorough]   Builds the analyser and runs it on /repo's current source.
set -u
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
V="$(cd "$(dirname "$0")" && pwd)"
R="${XV_REPO:-/repo}"
mkdir -p "$V/bin" "$V/evidence"
if ! (cd "$V/checker" && env -u GOOS -u GOARCH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$V/bin/xv" .) >"$V/bin/build.log" 2>&1; then
  cat "$V/bin/build.log" >&2
  echo "cannot build the analyser" >&2
  exit 3
fi
exec "$V/bin/xv" check "$1" "$R" "$V"
