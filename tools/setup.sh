#!/bin/sh
# Checks the reference implementations and warms the build cache.
set -e
cd "$(dirname "$0")/../harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp"
go test -modfile "$tmp/go.mod" -count=1 ./ref
go vet -modfile "$tmp/go.mod" ./...
go test -c -race -modfile "$tmp/go.mod" -o "$tmp/conc.test" ./conc
