#!/bin/bash
# Warms the build cache for the checks (each check rebuilds from /repo anyway).
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/harness/env.sh"
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || exit 0
W=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
cp "$V/harness/go.mod" "$V/harness/go.sum" "$W/"
cd "$V/harness" || exit 1
go build -tags verif -modfile="$W/go.mod" -o "$W/h" . || exit 1
go build -race -tags verif -modfile="$W/go.mod" -o "$W/hr" . || exit 1
cd /repo && go build -o "$W/unlynx" ./cmd/unlynx
