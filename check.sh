#!/bin/bash
# check.sh ID            run the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE   re-run one saved case
# Everything is built from /repo's current tree into a scratch directory that
# is removed at the end. Exit 0 holds, 1 violated, anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
# gin prints its route table otherwise
export GIN_MODE=release
scratch=$(mktemp -d /tmp/astra-verif.XXXXXXXX) || exit 4
export VERIF_SCRATCH=$scratch/work
mkdir -p "$VERIF_SCRATCH" || exit 4
# programs built by the check keep their objects out of the shared cache's way
cleanup() { case "$scratch" in /tmp/astra-verif.*) chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch";; esac; }
trap cleanup EXIT
trap 'exit 5' INT TERM
[ "$1" = replay ] && file=$(realpath "$2")
cd "$here/harness" || exit 4
GOFLAGS=-mod=readonly go build -o "$scratch/harness" . 2>"$scratch/build.log"
rc=$?
if [ $rc -ne 0 ]; then
	cat "$scratch/build.log" >&2
	echo "the harness does not build against $VERIF_REPO" >&2
	exit 6
fi
[ "$1" = build ] && exit 0
cd "$VERIF_SCRATCH" || exit 4
if [ "$1" = replay ]; then
	"$scratch/harness" replay "$file"
else
	"$scratch/harness" check "$1"
fi
exit $?
