#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [gosym flags]
# Builds the symbolic executor (cached by the Go tool chain) and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
here=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
fi
prop=$1; tier=${2:-quick}; shift 2
bin=$(mktemp -d /tmp/gosymbin.XXXXXX) || exit 2
mkdir -p "$bin/home"; export HOME=$bin/home TMPDIR=$bin
trap 'rm -rf "$bin"' EXIT
(cd gosym && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$bin/gosym" .) || exit 2
VERIF_TIER=$tier "$bin/gosym" -verif "$here" -repo "${VERIF_REPO:-/repo}" -prop "$prop" -tier "$tier" "$@"
