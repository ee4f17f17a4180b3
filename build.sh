#!/bin/bash
# Builds the checker into /verif/bin (offline, from the module cache).
set -e
cd "$(dirname "$0")/checker"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/checker.$$ . && mv -f ../bin/checker.$$ ../bin/checker
