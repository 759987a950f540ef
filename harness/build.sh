#!/bin/bash
# build.sh OUT [go build flags]: builds the check program from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$here/../.build/src
mkdir -p "$work"
cd "$work"
# a copy of the harness with the IPv6 twin generated from the IPv4 one
find "$work" -name "*.go" -delete
for d in cmd/check mon gen mem model u128 facade fam4 fam6; do
	mkdir -p "$work/$d"
	cp "$here/$d"/*.go "$work/$d/" 2>/dev/null || true
done
cp "$here/go.mod" "$work/go.mod"
for f in "$here"/fam4/*.go; do
	b=$(basename "$f")
	case $b in adapt*.go|only4*.go) continue;; esac
	sed -e 's,addrs\.v1/ipv4,addrs.v1/ipv6,; s,^package fam4,package fam6,' "$f" > "$work/fam6/$b"
done
go build -trimpath -tags verif "$@" -o "$out" ./cmd/check
