#!/bin/bash
# dev.sh ID [cases]   run a check with a harness built once, outside of check.sh; failing programs are shown
. /opt/vp/env.sh
cd "$(dirname "$0")/../harness" && GOFLAGS=-mod=readonly go build -o /tmp/vdev/harness . || exit 1
mkdir -p /tmp/vdev/work /tmp/vdev/verif
cp ../known_findings.json /tmp/vdev/verif
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GIN_MODE=release
export VERIF_SCRATCH=/tmp/vdev/work VERIF_DIR=/tmp/vdev/verif
[ -n "$2" ] && export VERIF_CASES=$2
cd /tmp/vdev/work
/tmp/vdev/harness check "$1" 2>&1 | tee /tmp/vdev/out
f=$(sed -n 's/^VIOLATION.*replay=//p' /tmp/vdev/out | head -1)
[ -n "$f" ] && grep -q "\"funcs\"" "$f" || { [ -n "$f" ] && cat "$f"; f=; }
[ -n "$f" ] && /tmp/vdev/harness show "$f"
find /tmp/vdev/work -mindepth 1 -maxdepth 1 -name 'p*' -exec rm -rf {} +
true
