#!/bin/bash
# exit 0: the property holds in the repository the shell stands in; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp "$here"/*.go "$work"/ && cp "$repo/go.sum" "$work"/ || exit 2
go=$(sed -n 's/^go //p' "$repo/go.mod" | tr -d '\r')
{ echo "module demo"; echo "go ${go:-1.18}"; echo "require github.com/NodeBoy2/rtspclient v0.0.0"; echo "replace github.com/NodeBoy2/rtspclient => $repo"; sed -n '/^require/,$p' "$repo/go.mod" | tr -d '\r'; } > "$work/go.mod"
cd "$work" && timeout 200 go run $(cat "$here/flags" 2>/dev/null) .
