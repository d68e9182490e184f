#!/bin/bash
# Nothing is installed: every check builds what it needs.  This only checks
# that the tools are there and warms the Go build cache.
cd "$(dirname "$0")" || exit 1
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
set -e
go1.24 version
python3 --version
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd tools && go1.24 build -o "$d/instr" ./instr)
