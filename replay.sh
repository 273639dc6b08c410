#!/bin/bash
# usage: replay.sh evidence/replay/Cxx-n.json
# Runs a recorded counterexample through the natively compiled harness and /repo.
set -eu
f=$(realpath "$1")
cd "$(dirname "$0")/harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
t=$(mktemp -d)
trap 'rm -f "$t/native"; rmdir "$t"' EXIT
go build -buildvcs=false -o "$t/native" .
python3 - "$f" <<'P' | "$t/native"
import json,sys
v=json.load(open(sys.argv[1]))
print(json.dumps({"Harness":v["harness"],"Inputs":v["inputs"],"Tier":v["tier"]}))
P
