#!/bin/bash
# rep.sh FILE   replay with the log of the generation
. /opt/vp/env.sh
cd "$(dirname "$0")/../harness" && GOFLAGS=-mod=readonly go build -o /tmp/vdev/harness . || exit 1
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GIN_MODE=release VERIF_LOG=1
export VERIF_SCRATCH=/tmp/vdev/work VERIF_DIR=/tmp/vdev/verif
cd /tmp/vdev/work; /tmp/vdev/harness replay "$1"
