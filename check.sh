#!/bin/bash
# check.sh ID [args]: build the explorer against /repo's working tree and run one check.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here" HOME=/root
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
id=$1; shift
bin=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$here/mc" || exit 3
build=(go build -buildvcs=false -o "$bin/mc")
case $id in
C19) instr=(-yield -globals) ;;
C20) instr=(-globals) ;;
C21) instr=(-maps -globals) ;;
*) instr= ;;
esac
if [ -n "$instr" ]; then
  # These explore a copy of the sources in which scheduling points, map walks
  # or package variables are within reach; it is made from /repo every time.
  mkdir "$bin/ov"
  if ! go run ./cmd/instr "${instr[@]}" -out "$bin/ov"; then
    echo "instrumentation failed"; exit 3
  fi
  build+=(-tags verifov -overlay "$bin/ov/overlay.json")
fi
if [ "$id" = C19 ]; then
  build+=(-race)
  export GORACE="halt_on_error=0 exitcode=0 log_path=$bin/race"
fi
if ! "${build[@]}" ./cmd/mc; then
  echo "build failed"; exit 3
fi
cd "$here"
"$bin/mc" -check "$id" "$@"
