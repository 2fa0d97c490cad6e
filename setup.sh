#!/bin/bash
# warms the build cache; the checks build what they need themselves
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/mc" && go build -buildvcs=false -o /dev/null ./cmd/xpdfmc && go build -buildvcs=false -o /dev/null ./cmd/instr || exit 1
go build -buildvcs=false -race -gcflags=all=-d=checkptr=0 -o /dev/null ./cmd/xpdfmc || echo "no build with the race detector"
