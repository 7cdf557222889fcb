#!/bin/bash
# Runs prog.yisp with /repo's yisp and compares what it prints with want.txt.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=$t
go build -buildvcs=false -o "$t/yisp" . || exit 2
mkdir "$t/w" && cp "$here"/*.yisp "$t/w" && cd "$t/w" || exit 2
for f in "$here"/*.txt; do [ "$(basename "$f")" = want.txt ] || cp "$f" .; done 2>/dev/null
timeout 60 "$t/yisp" build $(cat "$here/flags" 2>/dev/null) prog.yisp </dev/null >"$t/out" 2>&1
sed -i -e "s#$t/w/##g" -e '/^==*$/d' "$t/out"
diff "$t/out" "$here/want.txt"
