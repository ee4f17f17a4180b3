#!/bin/bash
# check.sh PROPERTY: decides the property on the current source of /repo.
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
if [ ! -x bin/checker ] || [ -n "$(find checker -name '*.go' -newer bin/checker -print -quit)" ]; then
  ./build.sh || { echo "checker does not build" >&2; exit 2; }
fi
exec bin/checker -prop "$1" -repo /repo -out "$PWD"
