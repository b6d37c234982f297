#!/bin/bash
# Warms the build cache; every check rebuilds its harness from /repo anyway.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/../mc"
d=$(mktemp -d)
go build -o "$d/seq" ./cmd/seq
go build -o "$d/instr" ./cmd/instr
cp -a . "$d/mc"
cd "$d/mc"
"$d/instr" /repo "$d/repo"
export GOFLAGS=-mod=mod
go mod edit -replace github.com/zhiqiangxu/mondis="$d/repo"
go test -c -tags conc -vet=off -o "$d/conc" ./conc
rm -rf "$d"
