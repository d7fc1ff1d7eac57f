#!/bin/bash
# build.sh OUT [go build flags]: builds the driver from /repo's working tree, with the harness laid over it
set -e
out=$1; shift
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}   # seedrun.sh sets it to a scratch copy with a planted bug
W=$(dirname "$out"); mkdir -p "$W"
cp "$R"/go.mod "$W/go.mod"; cp "$R"/go.sum "$W/go.sum"
{
  echo '{"Replace": {'
  echo "\"$R/orc/verif_export.go\": \"$V/harness/export_orc.go\""
  for f in "$V"/harness/*.go; do
    b=$(basename "$f"); [ "$b" = export_orc.go ] && continue
    echo ",\"$R/verifharness/$b\": \"$f\""
  done
  echo '}}'
} > "$W/overlay.json"
cd "$R" && go1.27 build -overlay "$W/overlay.json" -modfile "$W/go.mod" "$@" -o "$out" ./verifharness
