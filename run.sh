#!/bin/bash
# Build the verifier from the committed sources (offline, vendored) and run it.
# usage: run.sh check PROP [quick|thorough] | run.sh build | run.sh replay FILE | ...
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
bin="$here/.build/verif"
if [ ! -x "$bin" ] || [ -n "$(find "$here/tool" -newer "$bin" -type f -print -quit)" ]; then
  (cd "$here/tool" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "tool build failed" >&2; exit 3; }
fi
export GOFLAGS=-mod=mod VC_VERIF="${VC_VERIF:-$here}" VC_REPO="${VC_REPO:-/repo}"
[ "${1:-}" = build ] && exit 0
exec "$bin" "$@"
