#!/bin/bash
# Builds the engine once, so that the Go build cache is warm; needs no network.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
mkdir -p .build
cd engine && go build -o ../.build/gosym . && ../.build/gosym list -repo /repo -verif "$(cd .. && pwd)" >/dev/null
