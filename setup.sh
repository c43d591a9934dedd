#!/bin/bash
# builds the engine and the harnesses once, which fills the build cache.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
set -e
cd "$here/engine" && go build -o /dev/null .
cd "$here/harness" && go build -o /dev/null ./replay
