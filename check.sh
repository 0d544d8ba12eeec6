#!/bin/bash
# check.sh ID quick|thorough   run the check of a property against /repo
# check.sh replay FILE         run a saved failure again
# Exit 0: held; 1: VIOLATION printed; anything else: the check could not run.
set -u
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off CGO_ENABLED=0
export VERIF_ROOT=$root
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX") || exit 2
trap 'rm -rf -- "$bin"' EXIT
# The runner is built with types generated by the current generator (package
# fresh), or without them if that does not work.
mkdir "$bin/fresh"
if (cd "$root/harness" && go build -o "$bin/freshgen" ./cmd/freshgen && timeout 100 "$bin/freshgen" "$bin/fresh" "$root/harness" &&
    go build -overlay="$bin/fresh/overlay.json" -o "$bin/runner" ./cmd/runner) >"$bin/log" 2>&1; then
  export GOFLAGS="$GOFLAGS -overlay=$bin/fresh/overlay.json"
elif ! (cd "$root/harness" && go build -o "$bin/runner" ./cmd/runner) >"$bin/log" 2>&1; then
  cat "$bin/log" >&2
  echo "build failed" >&2
  exit 2
fi
if [ "$1" = replay ]; then
  "$bin/runner" replay "$2"
else
  "$bin/runner" check "$1" "${2:-quick}"
fi
