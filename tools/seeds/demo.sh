#!/bin/bash
# Builds and runs the demonstration against the source tree in the current
# directory: exits 0 if the property holds, 1 if it's violated.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/github.com/qbeon" "$tmp/src/demo"
ln -s "$PWD" "$tmp/src/github.com/qbeon/webwire-go"
cp "$here"/*.go "$tmp/src/demo/"
export GO111MODULE=off GOPATH="$tmp" GOFLAGS= GOENV=off CGO_ENABLED=0
cd "$tmp/src/demo" || exit 3
go build -o "$tmp/demo" . || exit 3
mkdir "$tmp/work" && cd "$tmp/work" || exit 3
timeout 120 "$tmp/demo"
