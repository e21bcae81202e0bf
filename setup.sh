#!/bin/bash
# Builds the engine and warms the build cache for the native replays.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/.build" "$here/evidence"
(cd "$here/engine" && go build -o "$here/.build/engine" .) || exit 1
(cd /repo && CGO_ENABLED=0 go build -o /dev/null ./cmd/capslock ./cmd/capslock-git-diff 2>/dev/null; CGO_ENABLED=0 go build ./... 2>/dev/null)
for s in z3 z3-new cvc5; do command -v $s >/dev/null || echo "solver $s missing"; done
exit 0
