#!/bin/bash
# Builds both variants of the harness once, which fills the build cache and shows that the toolchain works.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
sed "s#=> ./websocket#=> $here/harness/websocket#" "$here/harness/go.mod" > "$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/"
cd "$here/harness"
for race in "" -race; do go test -c $race -vet=off -mod=mod -modfile="$tmp/go.mod" -o "$tmp/vh$race" .; done
mkdir -p "$here/evidence" "$here/replay"
