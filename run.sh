#!/bin/bash
# Runs one check: run.sh <property>. Builds the analyser first when its binary is missing or older than its source.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off HOME="${HOME:-/root}"
bin=bin/polcheck
if [ ! -x $bin ] || [ -n "$(find polcheck -name '*.go' -newer $bin -print -quit)" ]; then
	mkdir -p bin
	(cd polcheck && GOFLAGS=-mod=vendor go build -o ../$bin .) || exit 2
fi
[ "$1" = build ] && exit 0
exec ./$bin check "$1"
