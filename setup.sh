#!/bin/bash
# Builds the analyser once, so that the build cache is warm.
cd "$(dirname "$0")/analyzer" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin && go build -o ../bin/setup . && rm -f "$PWD/../bin/setup"
