#!/bin/bash
# Usage: check.sh <property id> [tier]. Builds the analyser and runs one check
# over the sources of /repo. The analysed program is never built or run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
repo=${GOEXV_REPO:-/repo}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
if ! (cd "$here/goexv" && go build -o "$tmp/goexv" .); then
	echo "the analyser does not build"
	exit 2
fi
"$tmp/goexv" -repo "$repo" -prop "$id" -tier "$tier" -verif "$here"
exit $?
