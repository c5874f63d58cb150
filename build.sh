#!/bin/bash
# build.sh OUTDIR [fake|nofake]: builds the harness (vrun, and vrun-fake: virtual time) against /repo's working tree.
set -e
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GO111MODULE=on GOWORK=off
H=$(cd "$(dirname "$0")" && pwd)/harness
OUT=$(realpath -m "$1")
mkdir -p "$OUT"
python3 "$H/overlay.py" "$H" "$OUT/overlay"
cd "$H"
build() { # name, tags, overlay
  CGO_ENABLED=0 go build -overlay "$OUT/overlay/$3" -tags "$2" -o "$OUT/$1" ./cmd/vrun
}
if [ "$2" = fake ]; then
  build vrun-fake faketime overlay-fake.json &
  P=$!
  build vrun "" overlay.json
  wait $P
else
  build vrun "" overlay.json
fi
