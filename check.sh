#!/bin/bash
# check.sh build | check.sh <property> <quick|thorough> [gosym flags]: (re)builds the engine from /verif/engine and
# runs one property's check against /repo's current working tree. Nothing outside /verif/evidence, /verif/.bin and a
# temporary folder is written.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p "$here/.bin" "$here/evidence"
(
  flock 9
  cd "$here/engine" && GOFLAGS=-mod=vendor go build -o "$here/.bin/gosym.new" . && mv -f "$here/.bin/gosym.new" "$here/.bin/gosym"
) 9>"$here/.bin/lock" || { echo "engine does not build"; exit 3; }
[ "$1" = build ] && exit 0
id=$1; tier=${2:-quick}; shift; shift
exec "$here/.bin/gosym" check -prop "$id" -tier "$tier" -repo /repo -verif "$here" "$@"
