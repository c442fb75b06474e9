#!/bin/bash
# ./check.sh ID            runs the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
# ./check.sh ID --replay F re-runs one saved failing case against /repo's working tree
set -u
cd "$(dirname "$0")" || exit 3
here=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_DIR=$here
bin=$(mktemp -d) || exit 3
trap 'rm -f "$bin/vh"; rmdir "$bin"' EXIT
(cd h && go build -o "$bin/vh" .) || { echo "ERROR: harness build failed"; exit 3; }
if [ "${2:-}" = "--replay" ]; then "$bin/vh" replay "$1" "$3"; else "$bin/vh" check "$1"; fi
rc=$?
exit $rc
