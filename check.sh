#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [ctl flags]
# Builds the simulator from /repo's working tree in a scratch directory and
# runs the seeded search for one property. Exit 0: held; 1: violation; 2: error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM
(cd "$here/sim/ctl" && go build -o "$scratch/ctl" .) || exit 2
prop=$1; tier=${2:-}; shift; [ $# -gt 0 ] && shift
"$scratch/ctl" -prop "$prop" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here" -scratch "$scratch" "$@"
