#!/bin/bash
# Builds the harness once, so that the checks find a warm build cache.
set -eu
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off CGO_ENABLED=0
cd "$root/harness"
go build ./...
CGO_ENABLED=1 go build -race -o /dev/null ./cmd/runner
fresh=$(mktemp -d "${TMPDIR:-/tmp}/verif-fresh-XXXXXX")
trap 'rm -rf -- "$fresh"' EXIT
if go run ./cmd/freshgen "$fresh" "$root/harness"; then
  go build -overlay="$fresh/overlay.json" -o /dev/null ./cmd/runner || true
  CGO_ENABLED=1 go build -overlay="$fresh/overlay.json" -race -o /dev/null ./cmd/runner || true
fi
