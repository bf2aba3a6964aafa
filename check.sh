#!/bin/bash
# check.sh ID [quick|thorough]    builds the harness from the repository's working tree and runs one check
# check.sh replay FILE            runs the case recorded in a replay file again
# VREPO: repository to check (default /repo). VH_OUTDIR: where evidence/ and replay/ go (default: this directory).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
repo=${VREPO:-/repo}
tier=${2:-${VERIF_TIER:-quick}}
id=$1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
sed "s#=> /repo#=> $repo#; s#=> ./websocket#=> $here/harness/websocket#" "$here/harness/go.mod" > "$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/go.sum"
race=
case "$id" in C01) race=-race ;; replay) grep -q '"property": "C01"' "$2" && race=-race ;; esac
cd "$here/harness" || exit 2
unset http_proxy https_proxy all_proxy no_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY NO_PROXY
if ! go test -c $race -vet=off -mod=mod -modfile="$tmp/go.mod" -o "$tmp/vh" . > "$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "the harness does not build against $repo" >&2
  exit 2
fi
export VH_CORPUS=$here/harness/corpus
export VH_VERIF=${VH_OUTDIR:-$here}
if [ "$id" = replay ]; then f=$(realpath "$2"); "$tmp/vh" replay "$f"; else "$tmp/vh" "$id" "$tier"; fi
