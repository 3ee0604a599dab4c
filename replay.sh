#!/bin/bash
# usage: replay.sh FILE
# Evaluates the case of a replay or corpus file against /repo's working tree:
# exit 1 and a VIOLATION line if the property is violated.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
. "$here/env.sh"
out=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
race=
grep -q '"property": *"C05"' "$file" && race=-race
(cd "$here/harness" && go build $race -o "$out/verif" .) || exit 2
(cd "$REPO" && go build -o "$out/cljfmt" ./cljfmt) || exit 2
export VERIF_CLJFMT="$out/cljfmt"
GORACE="halt_on_error=1 exitcode=66" "$out/verif" replay "$file"
