#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra gosym flags]
# Builds the symbolic engine from the committed sources, then decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
prop="$1"; tier="${2:-quick}"; shift; shift
mkdir -p "$V/.build" "$V/evidence"
( cd "$V/engine" && go build -o "$V/.build/gosym.$$" . ) || { echo "engine build failed"; exit 2; }
"$V/.build/gosym.$$" check -prop "$prop" -tier "$tier" -repo /repo -verif "$V" "$@"
rc=$?
rm -f "$V/.build/gosym.$$"
exit $rc
