#!/bin/bash
# Builds the symbolic engine from the committed sources (offline).
set -eu
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p bin
(cd engine && go build -buildvcs=false -o ../bin/gosym.new . && mv ../bin/gosym.new ../bin/gosym)
