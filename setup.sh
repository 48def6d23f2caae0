#!/bin/bash
# Builds the harness once, to see that everything it needs is there. The checks build it again.
set -e
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$root/harness/go.mod" "$root/harness/go.sum" "$tmp"
cd "$root/harness"
go test -modfile="$tmp/go.mod" ./ref
go test -modfile="$tmp/go.mod" -c -o "$tmp/check" ./checks
