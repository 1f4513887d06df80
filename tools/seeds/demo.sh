#!/bin/bash
# Runs with the working directory at the repository; exits 0 iff the behaviour is as specified.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
for f in "$here"/*.go.txt; do
	cp "$f" "$tmp/$(basename "${f%.txt}")" || exit 3
done
cat >"$tmp/go.mod" <<EOF
module demo

go 1.23

require github.com/yoheimuta/go-protoparser/v4 v4.0.0

replace github.com/yoheimuta/go-protoparser/v4 => $repo
EOF
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod REPO="$repo" TMPD="$tmp"
cd "$tmp" || exit 3
go build ${DEMO_BUILD_FLAGS:-} -o "$tmp/demo" . || exit 3
timeout ${DEMO_TIMEOUT:-120} "$tmp/demo"
