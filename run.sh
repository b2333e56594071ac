#!/bin/bash
# run.sh ID: builds the checker from /verif/checker and decides property ID on /repo's current source.
dir=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p "$dir/bin"
if ! (cd "$dir/checker" && go build -o "$dir/bin/mp4verif.$$" . && mv -f "$dir/bin/mp4verif.$$" "$dir/bin/mp4verif"); then
  echo "checker build failed" >&2
  exit 3
fi
[ "$1" = "--build" ] && exit 0
exec env MP4VERIF_DIR="$dir" "$dir/bin/mp4verif" "$@"
