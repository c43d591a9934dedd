#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
tier=${2:-${VERIF_TIER:-quick}}
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
(cd "$here/engine" && go build -o "$out/engine" .) || exit 2
"$out/engine" -prop "$1" -tier "$tier" -verif "$here"
