#!/bin/bash
# Warms the build cache: compiles the harness (plain and with the race detector) and the commands against /repo.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/harness/go.mod "$here"/harness/go.sum "$tmp"/
cd "$here/harness" || exit 2
go build -modfile="$tmp/go.mod" -o "$tmp/verif" . || exit 2
go build -race -gcflags=all=-d=checkptr=0 -modfile="$tmp/go.mod" -o "$tmp/verif-race" . || exit 2
cd /repo && cp go.mod go.sum "$tmp"/ && go build -modfile="$tmp/go.mod" -o "$tmp/" ./cmd/astprinter ./tools/genmark || exit 2
