#!/bin/bash
# check.sh PNN [case I]: builds the monitors against /repo's working tree and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
P=$1
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
mkdir -p build replay evidence
BIN=$ROOT/build/mon
build() { (cd mon && go build -buildvcs=false "$@" -o "$BIN" ./cmd/mon); }
case $P in
P12) BIN=$ROOT/build/mon-race; build -race || exit 2 ;;
P19) BIN=$ROOT/build/mon-plain; build || exit 2
     BIN=$ROOT/build/mon-cover
     build -cover -covermode=atomic -coverpkg=github.com/yoheimuta/go-protoparser/v4/...,verif/mon/cmd/mon || exit 2
     export GOCOVERDIR=$ROOT/build/cov
     mkdir -p "$GOCOVERDIR"
     go build -buildvcs=false -o build/covdata cmd/covdata || exit 2 ;;
*)   build -tags covfuzz "-gcflags=github.com/yoheimuta/go-protoparser/v4/...=-d=libfuzzer" -ldflags=-checklinkname=0 || exit 2 ;;
esac
if [ "$P" = P21 ]; then
  (cd /repo/_example/dump && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$ROOT/build/dump" .) || exit 2
fi
if [ "${2:-}" = case ]; then
  exec "$BIN" -prop "$P" -tier "$TIER" -seed "$SEED" -verif "$ROOT" -case "$3"
fi
exec "$BIN" -prop "$P" -tier "$TIER" -seed "$SEED" -verif "$ROOT"
