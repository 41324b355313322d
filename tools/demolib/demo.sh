#!/bin/bash
# Builds and runs the demonstration against the sources in the current
# directory. Exit 0: the property holds; otherwise it is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local TMPDIR=$t
cat > "$t/overlay.json" <<J
{"Replace": {"$PWD/zzdemo/main.go": "$here/main.go", "$PWD/zzdemo/lib.go": "$here/lib.go"}}
J
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
mkdir "$t/run" && cd "$t/run" && timeout 120 "$t/demo" "$t/run"
