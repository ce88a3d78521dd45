#!/bin/bash
# check.sh <property id> [extra engine flags]: builds the engine and runs every harness of the property
# against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/.build/veng"
mkdir -p "$here/.build"
export PATH=/opt/veriftools/bin:/usr/local/bin:/usr/bin:/bin:$PATH
stamp=$(cat "$here"/engine/*.go "$here"/engine/go.mod | sha256sum | cut -c1-16)
if [ ! -x "$bin-$stamp" ]; then
  (cd "$here/engine" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0 go1.27 build -o "$bin-$stamp.$$" . && mv "$bin-$stamp.$$" "$bin-$stamp") || { echo "inconclusive: engine does not build"; exit 3; }
fi
id=$1; shift
[ "$id" = --build ] && exit 0
exec "$bin-$stamp" -prop "$id" -verif "$here" -repo "${VERIF_REPO:-/repo}" "$@"
