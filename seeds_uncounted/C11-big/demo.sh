#!/bin/bash
# Runs demo_test.go inside package directory . of the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/./zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
go test  -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run 'TestDemo' ./.
