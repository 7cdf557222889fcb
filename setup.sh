#!/bin/bash
# Warms the Go build cache for the executor and for the code under test. Checks do not depend on it.
cd "$(dirname "$0")" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
tmp=$(mktemp -d /tmp/gosymsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
export HOME=$tmp TMPDIR=$tmp
(cd gosym && GOFLAGS=-mod=readonly go build -buildvcs=false -o /dev/null .) || exit 1
command -v z3 >/dev/null || { echo "z3 missing"; exit 1; }
