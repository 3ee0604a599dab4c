#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the harness and what it needs from /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
out=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
chmod 755 "$out"
race=
case $id in C05) race=-race ;; esac
cd "$here/harness" || exit 2
if ! go build $race -o "$out/verif" . >"$out/log" 2>&1; then
	cat "$out/log" >&2
	echo "$id: the harness does not build" >&2
	exit 2
fi
case $id in C23|C24|C25)
	if ! (cd "$REPO" && go build -o "$out/cljfmt" ./cljfmt) >"$out/log" 2>&1; then
		cat "$out/log" >&2
		echo "$id: cljfmt does not build" >&2
		exit 2
	fi
	export VERIF_CLJFMT="$out/cljfmt"
esac
cd "$here"
"$out/verif" run -prop "$id" -verif "$here" -tier "$tier"
