#!/bin/bash
# Warms nothing that a check depends on: only proves that the tools build offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
for d in ctl instrument simrt; do (cd "$here/sim/$d" && go vet ./... ); done
echo setup ok
