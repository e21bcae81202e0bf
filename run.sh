#!/bin/bash
# run.sh <property> <quick|thorough>   decide one property on the current /repo
# run.sh replay <file>                 replay a reported counterexample
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/.build"
(cd "$here/engine" && go build -o "$here/.build/engine" .) || { echo "ERROR: the engine does not build"; exit 2; }
if [ "$1" = replay ]; then
  exec "$here/.build/engine" -verif "$here" -repo /repo -replay "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
extra=()
if [ "$tier" = thorough ]; then extra+=(-second cvc5); fi
exec "$here/.build/engine" -verif "$here" -repo /repo -prop "$1" -tier "$tier" "${extra[@]}"
