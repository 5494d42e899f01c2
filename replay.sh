#!/bin/bash
# usage: replay.sh FILE   - re-executes a replay file against /repo's working tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
(cd "$here/sim/ctl" && go build -o "$scratch/ctl" .) || exit 2
"$scratch/ctl" replay -repo "${VERIF_REPO:-/repo}" -verif "$here" -scratch "$scratch" -file "$(realpath "$1")"
