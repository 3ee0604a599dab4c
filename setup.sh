#!/bin/bash
# Compiles everything once, so that the build cache is warm.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
out=$(mktemp -d /tmp/verif-build-XXXXXX)
trap 'rm -rf "$out"' EXIT
cd "$here/harness"
go build -o "$out/verif" .
go build -race -o "$out/verif-race" .
cd "$REPO" && go build -o "$out/cljfmt" ./cljfmt
"$out/verif" list
