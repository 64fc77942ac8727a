#!/bin/bash
# setup.sh: check that the toolchain and the module cache can build everything
# offline, and warm the build cache (also of the race detector).
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
S=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
set -e
go version
cp "$ROOT/harness/go.mod" "$S/h.mod"; cp "$ROOT/harness/go.sum" "$S/h.sum"
cd "$ROOT/harness"
CGO_ENABLED=0 go vet -modfile="$S/h.mod" .
CGO_ENABLED=0 go build -modfile="$S/h.mod" -o "$S/vmon" .
CGO_ENABLED=1 go build -race -modfile="$S/h.mod" -o "$S/vmon-race" .
for t in msgfmt msgcat msgunfmt; do command -v $t >/dev/null && echo "reference tool: $t" || echo "no $t, its comparisons are skipped"; done
mkdir -p "$ROOT/evidence" "$ROOT/replay"
