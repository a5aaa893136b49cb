#!/bin/bash
# run with cwd = the repository: 0 on the unchanged tree, non-zero with the patch
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:${PATH:-}"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}"
export GOMODCACHE="${GOMODCACHE:-$GOPATH/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go.txt"}}\n' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -vet=off  -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 4
cd "$tmp" && ./demo -test.timeout 200s
