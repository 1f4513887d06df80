#!/bin/bash
# setup.sh: builds every monitor binary once (the checks rebuild from /repo as needed) and checks the oracles
# against each other.
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p build replay evidence
cd mon
go build -buildvcs=false -tags covfuzz "-gcflags=github.com/yoheimuta/go-protoparser/v4/...=-d=libfuzzer" -ldflags=-checklinkname=0 -o ../build/mon ./cmd/mon
go build -buildvcs=false -o ../build/mon-plain ./cmd/mon
go build -buildvcs=false -race -o ../build/mon-race ./cmd/mon
go build -buildvcs=false -cover -covermode=atomic -coverpkg=github.com/yoheimuta/go-protoparser/v4/...,verif/mon/cmd/mon -o ../build/mon-cover ./cmd/mon
go build -buildvcs=false -o ../build/covdata cmd/covdata
(cd /repo/_example/dump && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$ROOT/build/dump" .)
../build/mon -selftest -verif "$ROOT"
